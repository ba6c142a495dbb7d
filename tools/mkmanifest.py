#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after adding a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = 'TLA+ model checked with TLC + validation of recorded executions of the real code against it'
PIPE = 'TLC checks the page protocol (Pages, Pipeline) exhaustively for small constants, with every interleaving; the real runner headers are compiled with an instrumented std::atomic and run under a controlled scheduler, and every distinct recorded execution is replayed through the same rules by TLC (RunnerTrace). Assumes sequentially consistent interleaving of atomic accesses; semaphores and shared memory are emulated.'
TP = 'TLA+ specification; its enumerated cases are replayed into the real code and TLC explores the product of the specification machine with the automata dumped from the code'
RX = 'Regex.tla (position automaton) against the automata of the real code, for every expression up to 5 (6) nodes enumerated by RegexGen.tla and random larger ones; per expression the product covers every string. Built with AddressSanitizer and UBSan.'
GR = 'GrammarText.tla reads each text independently of the code; GrammarNet.tla explores the product of the network spelled with the one dumped from the code, so that all phrases of a rule are covered, whatever their length. Texts: hand-written, the repository\'s own, and random ones with random layout and includes.'
MT = 'TLA+ specification of the parser as a stack machine; every recorded run of the generated machine code is replayed through it by TLC'
MN = 'Machine.tla executes the grammar network, the automata and the lookahead automata dumped from the code (decided by C09, C10, C12 to C15) on each input. CodeGenEM64T.cpp is compiled against a stand-in for asmjit (absent from this checkout) that encodes the same instructions, and the code it emits is run. Samples inputs: about 5 000 in 400 grammars, with lengths around the 16 characters read at a time, varied alignment, inputs at the end of a mapping.'
CHECKS = {
 'C01': ('model_checking', TV, PIPE + ' Page contents are protected with mprotect, so that any access by a runner that does not hold the page is seen.'),
 'C02': ('model_checking', TV, PIPE),
 'C03': ('model_checking', TV, PIPE + ' Termination is checked under weak fairness on the model; on the code a state in which no thread can make progress is reported as stuck.'),
 'C04': ('model_checking', TV, 'Reduction.tla is checked for every tree, page cut and choice of empty values up to 4 (5) occurrences; its behaviours are replayed on the real C++, Python-mode and legacy runners, and larger random streams are run; TLC compares every reduction with the sequential one.'),
 'C05': ('model_checking', TV, 'As C04 and C01; TLC checks place, announcements, numbers and counter of every recorded execution.'),
 'C08': ('model_checking', TV, PIPE),

 'C09': ('model_checking', TP, RX + ' Decides the nondeterministic automaton and its simulation.'),
 'C10': ('model_checking', TP, RX + ' Decides the deterministic automata against the nondeterministic one.'),
 'C11': ('model_checking', 'TLA+ specification of classes as sets and of bracket expressions; exhaustively enumerated operations of the real CharClass judged by TLC', 'CharSets.tla; every pair of subsets and every sequence of up to three additions over five blocks of characters, in three character types; every bracket text up to four (five) characters of a seven-letter alphabet, random larger ones. Built with AddressSanitizer and UBSan.'),

 'C12': ('model_checking', TP, GR + ' Decides the networks, numbers, names, ids and root read from a text.'),
 'C13': ('model_checking', TP, GR + ' Decides the optimised networks against the networks read, with prioritised ways.'),
 'C14': ('model_checking', TP, 'CharNet.tla spells a rule out character by character from its optimised network (regular expressions by their dumped automata, decided by C09); Expansion.tla explores the product with the network the real code builds, over all sequences of characters and rule references, from the entry and from every alternative of every decision point, and ordered ways for priorities up to 4 (5) steps.'),
 'C15': ('model_checking', TP, 'Threads.tla runs every parse that is possible around a decision point, whatever the surroundings; Lookahead.tla explores the product with the raw and minimised automata of the real code. Without priorities: inputs of any length; with priorities: exactness up to 5 (6) characters, no wrong selection for any length. Stops where a thread is inside the same reference twice.'),
 'C16': ('model_checking', 'TLA+ specification of which grammars are usable, read from the text by TLC; verdict of the real verification judged', 'Usable.tla reads the text (GrammarText), decides undefined references, left recursion and idle repetitions exactly, and explores the threads of every decision point to tell whether lookahead settles; nothing is claimed in between. The real verification runs on the grammar as read and as optimised, under a time limit.'),
 'C17': ('model_checking', 'TLA+ specification of the grammar notation as a reader; outcome of the real reader for generated, cut and damaged texts judged by TLC', 'GrammarText.tla decides for every text whether it is a grammar and, if not, at which line it breaks; the real reader is run under ASan/UBSan with a time limit on every prefix and on single-character edits of sample grammars and on random texts.'),

 'C18': ('model_checking', MT, MN + ' Decides the marker stream, with pages of 2 to 512 markers, and 8 MB pages against small ones.'),
 'C19': ('model_checking', MT, MN + ' Decides acceptance, the end reported and the dry parser.'),
 'C20': ('model_checking', MT, MN + ' Decides the events and ends of the chaser, run on every occurrence of every accepted input.'),

 'C07': ('model_checking', TV, 'Life.tla describes the objects of runs (names, mappings, descriptors, threads, memory) through construct, start, wait and destroy steps; TLC checks that they are gone at the end in every history of up to three runs, enumerates the histories of single runs and samples those of more, and each is performed on the real runners (both families) with real shared memory, semaphores and threads; LifeTrace.tla compares what exists after every call with the model. Thread schedules are those of the system.'),
 'C22': ('model_checking', 'TLA+ specification of every drawing as a graph of places; drawings of the real tool, parsed, judged by TLC', 'Graphs.tla computes each drawing from the structures the library built (decided by C09, C10, C12 to C16); main.cpp is compiled with a stand-in for asmjit under AddressSanitizer and run about 4 600 times on 170 grammars and 40 expressions. Colours, layout and the text within determinised states are not compared.'),
 'C21': ('model_checking', MT, 'Callbacks.tla replays the calls recorded from the real C++ context, on marker streams decided by C18, step by step: which occurrence, when, text and values. About 3 800 inputs on pages of 2 to 32 markers with 1 to 4 workers, with and without the assertions of the runners, and lists of up to 3 million elements on 8 MB pages. CodeGenEM64T.cpp is compiled against a stand-in for asmjit. Thread schedules are those of the system; C01 to C05 decide all of them.'),
 'C06': ('model_checking', MT, 'Callbacks.tla replays the calls that handlers of the real Python package recorded in their processes, and decides their order, handler, text, values and the value that parsing returns. The library is built with a stand-in for asmjit. About 1 300 inputs on pages of 2 to 32 markers and 8 MB, with 1 to 4 worker processes, several parses and rounds of start and stop per context. Process schedules are those of the system, with handlers that take their time.'),
}
PENDING = 'check under construction'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        lv, te, no = CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 tools/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': te, 'level': lv, 'level_note': no})
    else: na.append({'property': i, 'reason': PENDING})
m = {'version': 1, 'setup_cmd': 'python3 tools/check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Specifications in spec/ (TLA+, TLC); harnesses in harness/ compile /repo sources; drivers in tools/.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

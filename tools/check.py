#!/usr/bin/env python3
"""check.py C01 .. : decides one property.  See DESIGN.md."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
WHERE = {'C01': 'pipe', 'C02': 'pipe', 'C03': 'pipe', 'C04': 'pipe', 'C05': 'pipe', 'C08': 'pipe', 'C09': 'regex', 'C10': 'regex', 'C11': 'regex', 'C12': 'grammar', 'C13': 'grammar', 'C17': 'grammar', 'C14': 'predict', 'C15': 'predict', 'C16': 'predict', 'C18': 'gen', 'C19': 'gen', 'C20': 'gen', 'C07': 'life', 'C21': 'context', 'C06': 'pypkg', 'C22': 'graphs'}
if __name__ == '__main__':
    pid = sys.argv[1]
    if pid == '--setup':
        common.setup(); sys.exit(0)
    common.main(getattr(__import__(WHERE[pid]), pid.lower()))

exec(open('/verif/tools/plants/_files_base.py').read())
ID = 'c43-hours-in-the-order-of-text'
PROP = 'C43'
EDITS = [(SK, '''    file1.writelines([strings_hours[hour]+'\\n' for hour in sorted(strings_hours)])
''', '''    file1.writelines([line+'\\n' for line in sorted(strings_hours.values())])
''')]
NEEDS = 'a solution with starts of different numbers of digits'
BREAKS = 'the hours of the written solution are out of order'
DEMO = FILES + '''
import os, tempfile
m, names = project(['1 12 Q0: 0', '2 3 Q0: 0'])
s = p.recompute_solution(m, names, {1: 2, 2: 14}, {1: 1, 2: 2})
with tempfile.TemporaryDirectory() as d:
    p.write_solution(s, names, d + '/x.sol')
    with open(d + '/x.sol') as f:
        expect('hours', [int(l.split()[0]) for l in f.readlines()[1:]], [2, 14])
'''

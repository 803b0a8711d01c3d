exec(open('/verif/tools/plants/_moves_base.py').read())
ID = 'c41-one-cow-per-colour'
PROP = 'C41'
EDITS = [('skdecide/hub/domain/mastermind/mastermind.py', '''and not bulls[j] and not cows[j]:
''', '''and not bulls[j]:
''')]
NEEDS = 'a guess with a colour twice in wrong places which the solution has twice elsewhere'
BREAKS = 'scores miss cows of a colour which occurs twice'
DEMO = MOVES + '''
from skdecide.hub.domain.mastermind.mastermind import *
d = MasterMind(3, 4)


def score(code, guess):
    bulls = sum(a == b for a, b in zip(code, guess))
    return bulls, sum(min(code.count(c), guess.count(c)) for c in range(3)) - bulls


bad = [(s, g) for s in d._h_solutions for g in d._h_solutions if tuple(d.get_next_state(State(s, Score(0, 0)), g).score) != score(s, g)]
expect('wrong scores', bad, [])
'''

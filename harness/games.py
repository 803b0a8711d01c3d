"""Domains of the hub as games with known rules: mazes, grids, MasterMind and rock-paper-scissors, played in interleaved histories."""
import contextlib
import io
import itertools
import random
from importlib import import_module as im

from harness.common import Harness, Outcome, drop_each
from harness.local import Base, hsh

MOVES = {'up': (0, -1), 'down': (0, 1), 'left': (-1, 0), 'right': (1, 0)}


class GameRun(Base):
    def go(self):
        sp = self.spec
        random.seed(sp['salt'])
        im('skdecide.utils')
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                getattr(self, 'play_' + sp['game'])()
            except Exception as e:
                self.crash(sp['game'], e)

    # -- mazes and grids
    def play_maze(self):
        sp = self.spec
        mod = im('skdecide.hub.domain.maze.maze')
        text = sp['before'] + '\n'.join(r.rstrip() if sp['cut'] else r for r in sp['rows']) + sp['after']
        dom = mod.Maze(text)
        rows = [r.ljust(max(map(len, (x.rstrip() for x in sp['rows'])))) for r in sp['rows']]
        free = {(x, y) for y, r in enumerate(rows) for x, c in enumerate(r) if c in ' ox'}
        at = lambda c: next((x, y) for y, r in enumerate(rows) for x, d in enumerate(r) if d == c)
        wide = max(len(r.rstrip()) for r in sp['rows'])
        free = {(x, y) for x, y in free if x < wide}
        self.cells(mod, dom, at('o'), at('x'), lambda x, y: (x, y) in free, sorted(free), wide, len(rows))
        if not self.v and sp['render']:
            self.render(mod, dom, free, at('x'), wide, len(rows))

    def play_grid(self):
        sp = self.spec
        mod = im('skdecide.hub.domain.simple_grid_world.simple_grid_world')
        w, h = sp['size']
        dom = mod.SimpleGridWorld(w, h)
        self.cells(mod, dom, (0, 0), (w - 1, h - 1), lambda x, y: 0 <= x < w and 0 <= y < h, [(x, y) for x in range(w) for y in range(h)], w, h)

    def cells(self, mod, dom, start, goal, free, every, wide, high):
        sp = self.spec
        if tuple(dom.get_initial_state()) != start:
            return self.fail('start', f'{dom.get_initial_state()} instead of {start}')
        if {a.name for a in dom.get_action_space().get_elements()} != set(MOVES):
            return self.fail('actions', f'{dom.get_action_space().get_elements()}')
        state = None
        for self.n, op in enumerate(sp['ops']):
            if op['do'] == 'reset' or state is None:
                state = tuple(dom.reset())
                if state != start:
                    return self.fail('reset', f'{state} instead of {start}')
                continue
            here = state if op['do'] == 'step' else every[op['at'] % len(every)]
            a = mod.Action[op['move']]
            x, y = here[0] + MOVES[op['move']][0], here[1] + MOVES[op['move']][1]
            want = (x, y) if free(x, y) else here
            cost = 1 if want != here else 2
            if op['do'] == 'step':
                o = dom.step(a)
                new, c, over = o.observation, o.value.cost, o.termination
                if bool(over) != (want == goal):
                    return self.fail('termination', f'{over} in {want}, the goal is {goal}')
                if o.value.reward != -cost:
                    return self.fail('reward', f'{o.value.reward} from {here} to {want}')
                state = want
            else:
                m = mod.State(*here)
                new = dom.get_next_state(m, a)
                c = dom.get_transition_value(m, a, new).cost
                if tuple(m) != here:
                    return self.fail('changed state', f'{here} is {m}')
            self.event(op['do'], here, op['move'], tuple(new))
            self.stats['moves'] += 1
            self.stats['moves against walls'] += want == here
            if tuple(new) != want:
                return self.fail('move', f'{op["move"]} from {here}: {new} instead of {want}')
            if c != cost:
                return self.fail('cost', f'{op["move"]} from {here} to {want}: {c}')
            s = mod.State(*want)
            if bool(dom.is_goal(s)) != (want == goal) or bool(dom.is_terminal(s)) != (want == goal) or bool(dom.get_goals().contains(s)) != (want == goal):
                return self.fail('goal', f'{want}: {dom.is_goal(s)}, the goal is {goal}')
            if not dom.get_observation_space().contains(s):
                return self.fail('observation space', f'{want} is not in it')
            if dom.get_observation_space().contains(mod.State(wide, 0)) or dom.get_observation_space().contains(mod.State(0, high)):
                return self.fail('observation space', 'cells outside are in it')
            if state == goal:
                state = None

    def render(self, mod, dom, free, goal, wide, high):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        was = plt.pause
        plt.pause = lambda t: None
        try:
            for k in range(2):
                here = sorted(free)[hsh(self.spec['salt'], 'look', k) % len(free)]
                dom.set_memory(mod.State(*here))
                dom.render()
                img = dom._image.get_array()
                want = [[.3 if (x, y) == here else .7 if (x, y) == goal else float((x, y) in free) for x in range(wide)] for y in range(high)]
                if img.tolist() != want:
                    return self.fail('picture', f'of {here}')
        finally:
            plt.pause = was
            plt.close('all')
        self.stats['pictures'] += 1

    # -- MasterMind
    def play_mastermind(self):
        sp = self.spec
        mod = im('skdecide.hub.domain.mastermind.mastermind')
        n, m = sp['colours'], sp['places']
        dom = mod.MasterMind(n, m)
        codes = list(itertools.product(range(n), repeat=m))
        acts = list(dom.get_action_space().get_elements())
        if sorted(acts) != codes:
            return self.fail('actions', f'{acts}')
        dist = dom.get_initial_state_distribution().get_values()
        if sorted(s.solution for s, p in dist) != codes or any(abs(p - 1 / len(codes)) > 1e-12 or tuple(s.score) != (0, 0) for s, p in dist):
            return self.fail('initial states', f'{dist}')
        space = dom.get_observation_space()

        def score(code, guess):
            bulls = sum(a == b for a, b in zip(code, guess))
            return bulls, sum(min(code.count(c), guess.count(c)) for c in range(n)) - bulls
        secret = None
        for self.n, op in enumerate(sp['ops']):
            guess = codes[op['at'] % len(codes)]
            if op['do'] == 'reset' or (secret is None and op['do'] == 'step'):
                o = dom.reset()
                secret = dom._memory.solution if hasattr(dom, '_memory') else None
                if tuple(o) != (0, 0) or secret not in codes:
                    return self.fail('reset', f'{o}, {secret}')
                continue
            if op['do'] == 'step':
                if op['at'] % 7 == 0:
                    guess = secret
                out = dom.step(guess)
                want, got, over = score(secret, guess), out.observation, out.termination
                if out.value.cost != 1:
                    return self.fail('cost', f'{out.value}')
                if secret != dom._memory.solution:
                    return self.fail('secret', 'changes')
            else:
                code = codes[hsh(sp['salt'], op['at']) % len(codes)]
                if op['at'] % 7 == 0:
                    code = guess
                s = mod.State(code, mod.Score(0, 0))
                new = dom.get_next_state(s, guess)
                want, got, over = score(code, guess), new.score, dom.is_terminal(new)
                if new.solution != code or s != mod.State(code, mod.Score(0, 0)):
                    return self.fail('secret', f'{code} is {new.solution}')
                if dom.get_transition_value(s, guess, new).cost != 1:
                    return self.fail('cost', '')
                obs = dom.get_observation_distribution(new, guess).get_values()
                if [(tuple(o), p) for o, p in obs] != [(want, 1)] and [tuple(o) for o, p in obs] != [want]:
                    return self.fail('observation', f'{obs}, the score is {want}')
            self.event(op['do'], guess, tuple(got))
            self.stats['guesses'] += 1
            if tuple(got) != want:
                return self.fail('score', f'{got} of guess {guess}, expected {want}')
            right = want[0] == m
            self.stats['right guesses'] += right
            if bool(over) != right or bool(dom.is_goal(got)) != right:
                return self.fail('goal', f'{got}: {over}')
            if not space.contains(got):
                return self.fail('observation space', f'{got} is not in it')
            if op['do'] == 'step' and right:
                secret = None

    # -- rock, paper, scissors
    def play_rps(self):
        sp = self.spec
        mod = im('skdecide.hub.domain.rock_paper_scissors.rock_paper_scissors')
        dom = mod.RockPaperScissors(**({} if sp['moves'] is None else {'max_moves': sp['moves']}))
        last = 10 if sp['moves'] is None else sp['moves']
        other = mod.RockPaperScissors(3)
        M = list(mod.Move)
        k = None
        space = dom.get_observation_space()
        for self.n, op in enumerate(sp['ops']):
            if k is None or op['do'] == 'reset':
                o = dom.reset()
                k = 0
                if set(o) != {'player1', 'player2'}:
                    return self.fail('reset', f'{o}')
                other.reset()
                continue
            a = {'player1': M[op['at'] % 3], 'player2': M[op['at'] // 3 % 3]}
            if op['at'] % 5 == 0:
                other.reset()
                other.step(dict(a))
            out = dom.step(dict(a))
            k += 1
            one, two = a['player1'].name, a['player2'].name
            beats = {('rock', 'scissors'), ('paper', 'rock'), ('scissors', 'paper')}
            r = ((one, two) in beats) - ((two, one) in beats)
            self.event('play', one, two)
            self.stats['plays'] += 1
            if (out.value['player1'].reward, out.value['player2'].reward) != (r, -r):
                return self.fail('rewards', f'{one} against {two}: {out.value}')
            if out.observation != {'player1': a['player2'], 'player2': a['player1']}:
                return self.fail('observation', f'{out.observation} of {a}')
            if not all(space[p].contains(o) for p, o in out.observation.items()):
                return self.fail('observation space', f'{out.observation}')
            if bool(out.termination) != (k >= last):
                return self.fail('termination', f'{out.termination} after {k} of {last}')
            if k >= last:
                k = None


class Games(Harness):
    runs = {'quick': 60000, 'thorough': 400000}
    real = ['maze, grid, MasterMind and rock-paper-scissors domains; domain base classes (steps, resets, goals), spaces']
    stub = ['the players', 'pictures are made without a screen']

    def gen(self, rng, tier):
        sp = {'game': rng.choice(['maze', 'maze', 'grid', 'mastermind', 'mastermind', 'rps']), 'salt': rng.randrange(1 << 30)}
        if sp['game'] == 'maze':
            w, h = rng.choice([2, 3, 4, 6, 9]), rng.choice([1, 2, 3, 4, 6])
            rows = [[rng.choice('    #+|-') if rng.random() < .9 else ' ' for _ in range(w)] for _ in range(h)]
            if rng.random() < .4 and h > 2 and w > 3:   # closed
                for y in range(h):
                    for x in range(w):
                        if x in (0, w - 1) or y in (0, h - 1):
                            rows[y][x] = '+'
            places = [(x, y) for x in range(w) for y in range(h)]
            (x, y), (u, v) = rng.sample(places, 2)
            rows[y][x], rows[v][u] = 'o', 'x'
            rows = [''.join(r) for r in rows]
            while not rows[-1].strip():
                rows.pop()
            while not rows[0].strip():
                rows.pop(0)
            sp.update(rows=rows, cut=rng.random() < .6, before=rng.choice(['', '\n']), after=rng.choice(['', '\n', '\n    ']), render=rng.random() < .02)
        elif sp['game'] == 'grid':
            sp['size'] = [rng.choice([1, 2, 3, 5, 10]), rng.choice([1, 2, 3, 5, 10])]
        elif sp['game'] == 'mastermind':
            sp['colours'], sp['places'] = rng.choice([1, 2, 2, 3, 3, 4]), rng.choice([1, 2, 2, 3, 3, 4])
        else:
            sp['moves'] = rng.choice([None, 1, 2, 5, 10])
        sp['ops'] = [{'do': rng.choice(['step', 'step', 'step', 'ask', 'ask', 'reset'] if rng.random() < .5 else ['step', 'ask']),
                      'move': rng.choice(sorted(MOVES)), 'at': rng.randrange(10000)} for _ in range(rng.choice([2, 5, 12, 30]))]
        return sp

    def execute(self, spec, record=False):
        r = GameRun(spec, record)
        r.go()
        return Outcome(r.v, dict(r.stats), dict(r.faults), r.h.hexdigest(), r.steps, r.now, sum(r.stats.values()) > 0, None, r.log)

    def shrink(self, spec):
        for ops in drop_each(spec['ops'], 0):
            yield {**spec, 'ops': ops}
        if spec.get('render'):
            yield {**spec, 'render': False}
        if spec.get('rows'):
            for rows in drop_each(spec['rows'], 1):
                if all(c in ''.join(rows) for c in 'ox') and rows[0].strip() and rows[-1].strip():
                    yield {**spec, 'rows': rows}


CHECKS = {'C41': Games()}

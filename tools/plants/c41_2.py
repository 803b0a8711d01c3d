exec(open('/verif/tools/plants/_moves_base.py').read())
ID = 'c41-mazes-go-round'
PROP = 'C41'
EDITS = [('skdecide/hub/domain/maze/maze.py', '''        if 0 <= next_state.x < self._num_cols and 0 <= next_state.y < self._num_rows and self''',
          '''        if next_state.x < self._num_cols and 0 <= next_state.y < self._num_rows and self''')]
NEEDS = 'a maze with openings in both side borders of a row'
BREAKS = 'leaving an open maze on the left leads to a cell outside the maze'
DEMO = MOVES + '''
from skdecide.hub.domain.maze.maze import *
d = Maze("+-+\\n o|\\n+x+")
expect('closed', d.get_next_state(State(0, 1), Action.left), State(0, 1))
d = Maze("+--+\\n o  \\n+x-+")
expect('open', d.get_next_state(State(0, 1), Action.left), State(0, 1))
'''

exec(open('/verif/tools/plants/_files_base.py').read())
ID = 'c43-thief-copies-share-their-bag'
PROP = 'C43'
EDITS = [(DO + 'ttp/ttp_model.py', '''        return TTPSolution(np.copy(self.tour), np.copy(self.packing),
''', '''        return TTPSolution(np.copy(self.tour), np.asarray(self.packing),
''')]
NEEDS = 'a copied solution whose packing is changed afterwards'
BREAKS = 'the packing of the original changes with that of its copy, its values stay'
DEMO = MOVES + '''
import skdecide.utils
from skdecide.builders.discrete_optimization.ttp.ttp_model import TTPSolution
s = TTPSolution(np.array([0, 1, 0]), np.array([-1, 1]))
c = s.copy()
c.packing[0] = 0
expect('packing', list(map(int, s.packing)), [-1, 1])
'''

exec(open('/verif/tools/plants/_prog_base.py').read())
ID = 'c42-unused-tail-of-columns'
PROP = 'C42'
EDITS = [('skdecide/hub/solver/cgp/pycgp/cgp.py', '''		p = self.max_graph_length - 1
		while p >= 0:
			if self.to_evaluate[p]:
''', '''		p = max(self.output_genes) - self.num_inputs
		while p > 0 or (p == 0 and self.max_graph_length == 1):
			if self.to_evaluate[p]:
''')]
NEEDS = 'a program of several nodes in which the very first node is used'
BREAKS = 'the first node is never computed: its value stays 0'
DEMO = PROG + '''
# node 2: |x0|, node 3: |node 2|
c = CGP(np.array([1, 0, 0, 1, 2, 2, 3]), 2, 1, 2, 1, LIB)
out = [float(c.run([-.5, 0.])[0]) for _ in range(3)]
expect('outputs', out, [0., .5, .5])
'''

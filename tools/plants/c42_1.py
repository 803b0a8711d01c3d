exec(open('/verif/tools/plants/_prog_base.py').read())
ID = 'c42-father-kept-by-ties'
PROP = 'C42'
EDITS = [('skdecide/hub/solver/cgp/pycgp/cgpes.py', '''				self.current_fitness = self.offspring_fitnesses[best_offspring]
				self.father = self.offsprings[best_offspring]
				self.father_was_updated = True
''', '''				self.father_was_updated = self.offspring_fitnesses[best_offspring] > self.current_fitness or it_is_new(self.father, self.offsprings[best_offspring])
				self.current_fitness = self.offspring_fitnesses[best_offspring]
				if self.father_was_updated:
					self.father = self.offsprings[best_offspring]
'''), ('skdecide/hub/solver/cgp/pycgp/cgpes.py', '''class CGPES:
''', '''def it_is_new(father, child):
	return any(father.genome[:-father.num_outputs] != child.genome[:-father.num_outputs])

class CGPES:
''')]
NEEDS = 'a generation whose best child is as good as its father and differs from it in its outputs only'
BREAKS = 'neutral moves over the outputs are dropped, and their generation leaves no genome file'
DEMO = PROG + '''
random.seed(3)
s = Scores([0.] * 100)
with contextlib.redirect_stdout(io.StringIO()):
    es = CGPES(1, 0., 1., CGP.random(2, 2, 5, 1, LIB, 1.0), s, DIR + '/x')
    es.run(5)
expect('files', sorted(f for f in os.listdir(DIR + '/x') if f.startswith('cgp')), [f'cgp_genome_{i}_0.0.txt' for i in range(6)])
expect('father', list(map(int, es.father.genome)), s.seen[-1])
'''

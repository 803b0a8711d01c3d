exec(open('/verif/tools/plants/_env_base.py').read())
ID = 'c26-derived-domain-class-hides-requirements'
PROP = 'C26'
EDITS = [('skdecide/solvers.py', "            if is_builder:\n                sorted_ancestors = [a for a in sorted_ancestors if a not in remove_ancestors]",
 "            if is_builder or (i == 0 and len(ancestor.__bases__) == 1 and ancestor is cls.T_domain):\n                if not is_builder:\n                    sorted_ancestors = list(ancestor.__bases__[0].__bases__)\n                    continue\n                sorted_ancestors = [a for a in sorted_ancestors if a not in remove_ancestors]")]
NEEDS = 'a solver whose domain class is derived from another domain class alone, which is itself derived from further domain classes'
BREAKS = 'characteristics asked for by inherited domain classes are not checked'
DEMO = ENV + '''
class Base(Domain, SingleAgent, Sequential):
    pass


class Mid(Base, DeterministicTransitions, Markovian):
    pass


class T(Mid):
    pass


class S(Solver):
    T_domain = T


class Dom(Domain, SingleAgent, DeterministicTransitions, Actions, DeterministicInitialized, Markovian, FullyObservable):
    pass


class Good(Dom, Sequential):
    pass


expect('parallel domain', S.check_domain(Dom()), False)
expect('sequential domain', S.check_domain(Good()), True)
'''

exec(open('/verif/tools/plants/_local_base.py').read())
ID = 'c29-failure-ends-the-search'
PROP = 'C29'
EDITS = [(GT + 'lns_cp.py', "                except Exception as e:\n", "                except (ValueError, KeyError, IndexError) as e:\n")]
NEEDS = 'a sub-solver which fails in one of the iterations'
BREAKS = 'the failure of one iteration ends the search, and all that was found is lost'
DEMO = LNS + '''
expect('found', lns([[4], RuntimeError('no solver'), [6]]), (3, [0, 4, 6]))
'''

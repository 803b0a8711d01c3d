TABLE.update({
    'release the renewable resources of tasks of duration zero': ('C09', 'starting a zero-duration task that uses a renewable resource kept it in use for ever'),
    'offer every possible mode of a task': ('C11', 'only the last startable mode of a task was offered'),
    'look up by task whether a pause returns': ('C12', 'pausing a task holding a non-renewable resource raised KeyError'),
    'active time of a task which is paused': ('C12', 'get_task_active_time raised IndexError for a paused task'),
    'resume a task in the requested or previous mode': ('C12', 'a resume without mode raised KeyError; one that did not fit left the task running without resources'),
    'a resumed task of type Restart': ('C12', 'a task of type Restart kept its progress when resumed'),
    'offer to resume a task only if': ('C11', 'resuming was offered although its resources were not available'),
    'a paused task does not wait for tasks which do not exist': ('C15', 'a paused task with a predecessor that never exists was never offered for resuming'),
    'read a varying consumption at the active time': ('C09', 'varying consumptions raised IndexError, or were read at the date instead of the active time'),
    'cost of non-renewable resources reads': ('C10', 'the COST objective raised TypeError with a non-renewable resource'),
    'record the resources of a started task in each': ('C13', 'uncertain transitions did not record the resources of started tasks and shared one dictionary between outcomes'),
    'conditional tasks exist as soon as': ('C15', 'tasks enabled by a condition appeared one step late, after the project could be declared complete'),
    'outcomes of tasks which add conditions keep': ('C13', 'outcome probabilities summed to more than one; several conditions of one task were never added together'),
    'tasks of duration zero add their conditions': ('C15', 'zero-duration tasks never added their completion conditions'),
    'equality and hash of scheduling states': ('C14', 'states with equal content were unequal when built in another order'),
    'in place scheduling environments can be reset': ('C14', 'after a reset, an in-place environment started from the mutated state; its makespan cost was 0'),
    'a varying consumption is zero after': ('C09', 'asking for the consumption of a mode beyond its last time step raised IndexError'),
    'resource unit action space resumes': ('C11', 'SchedulingActionSpaceWithResourceUnit offered to start paused tasks'),
    'a failed parallel request is never notified with the success': ('C07', 'a request failing with KeyError(0) pushed the success message 0'),
    'a memory seen by a Markovian domain': ('C16', 'a Markovian domain seen as a history domain answered for the oldest state of the memory'),
    'an unbounded or one-state history can be stepped': ('C16', 'stepping raised TypeError without memory bound, and lost the memory with a bound of one'),
    'stepping does not change the memory a caller': ('C16', 'the memory object given to set_memory was modified by later steps and never cut to its bound'),
    'rollout_episode starts from a reset': ('C17', 'rollout_episode without a memory raised UnboundLocalError'),
    'rollout_episode does not replace the memory': ('C17', 'rollout_episode replaced the state or history of the domain by its last observation'),
    'rollouts saved within the same second': ('C18', 'a second rollout saved within one second raised FileExistsError'),
    'saving the results of a rollout does not stop': ('C18', 'a saved rollout ran only its first episode'),
    'the directory of saved rollouts may be created': ('C18', 'a rollout failed if another one created the directory first'),
})
TABLE.update({
    'a task does not wait for predecessors which do not exist': ('C19', 'policies waited for ever for a task whose conditional predecessor never comes to exist'),
})
TABLE.update({
    'A* does not mix the costs': ('C20', 'a second search used costs of the first, popped a corrupted queue, gave goals an infinite value; threads lost cheaper paths'),
    'AO* handles dead ends': ('C21', 'dead ends made the search crash, goal starts were expanded, diamond graphs were reported as cycles, threads raced'),
    'ILAO* tests convergence': ('C22', 'a search ended with an incomplete or suboptimal policy; threads lost residuals'),
    'LRTDP initializes, labels': ('C23', 'uninitialized pointer, labels of unchecked states, freed successors used again, races, crashes at dead ends'),
    'BFWS does not mix the plans': ('C24', 'a second search broke the plans of the first; racing threads mixed costs and parents; goal starts had an infinite value'),
    'IW does not mix the plans': ('C25', 'plans of several searches mixed up, values of shared states wrong, the search went on after its time budget'),
})
TABLE.update({
    'auto-cast again is not cast twice': ('C26', 'a solver used with solve_with twice, or a factory returning one object, got and gave values cast twice'),
})
TABLE.update({
    'LazyAstar plans from a goal': ('C27', 'a start state which is a goal raised KeyError; utilities of earlier plans were kept; utilities counted the estimate of the goal'),
    'LRTAstar may pass a state twice': ('C27', 'values became infinite where a trial met its own path, cut trials were trusted, no policy was ever reported as defined'),
    'SimpleGreedy evaluates the actions': ('C27', 'values which do not depend on the next state raised TypeError'),
})
TABLE.update({
    'local searches know the sense': ('C28', 'results of minimizations returned the worst solution; stored solutions were modified when moves were taken back in place; a restart mixed the best solution of an earlier search with the fitness of the new one; a temperature of zero raised ZeroDivisionError'),
    'solutions can be added to an empty result storage': ('C28', 'adding to an empty storage raised AttributeError'),
    'large neighbourhood searches survive': ('C29', 'a first iteration without result lost all later ones (CP) or raised (MILP); iterations with worse results were not counted (MILP); maximization never recorded a first result; neighbourhood constraints stayed in the model'),
})
TABLE.update({
    'MCTS expands, removes and clears': ('C30', 'rollouts went on after the end of episodes; threads lost or duplicated outcomes and read nodes half made; dropping nodes left dangling pointers; clear() kept the actions taken and a freed node; an interrupted first visit made an action unusable'),
})
TABLE.update({
    'RIW ends its rollouts': ('C31', 'rollouts in cycles or at unsolved dead ends never ended or threw; threads read nodes half made and pruned states first evaluated by another; values were lost or underflowed; removal of nodes left dangling pointers; clear() kept the actions taken'),
})
TABLE.update({
    'empty spaces say': ('C16', 'EmptySpace raised NotImplementedError when asked for its content: is_enabled_event failed in every domain which only has actions'),
})
TABLE.update({
    'numpy has no int of its own any more': ('C32', 'every RCPSP model, multi-objective evaluation and some solvers raised AttributeError'),
    'knapsack solutions forget the value of the items': ('C32', 'a changed list of items kept the value of the earlier one; mutations told the objectives of the solution before; worthless items raised ZeroDivisionError'),
    'swaps of a permutation reach its last element': ('C32', 'the last element never moved; several swaps were taken back in the wrong order; solutions changed in place kept what was computed before'),
    'tours and their lengths stay together': ('C32', 'the two permutations of a tour and its lengths disagreed after moves, copies and changes of problem; 2-opt told wrong lengths; short tours raised'),
    'colorings, facility choices and routes forget': ('C32', 'changed contents and other problems kept earlier objectives; capacity violations of all facilities but the last were lost'),
    'schedules follow the permutation, the modes': ('C32', 'changed modes kept the earlier schedule; copies shared permutation, modes and feasibility; evaluating consumed the calendar of the problem'),
    'robust problems evaluate a solution anew': ('C32', 'aggregates were those of one problem, computed once for all; shuffles changed the solution they started from'),
})
TABLE.update({
    'genetic searches stay within': ('C33', 'vectors left their ranges, permutations which do not start at 0 became others, modes were shifted in results, searches without objectives raised, weights of one objective were ignored, small tournaments were empty'),
    'alternating genetic searches alternate': ('C33', 'only the first encoding was searched, with none of the parameters given, and the last result was returned'),
    'two-opt mutations are mutations': ('C33', 'searches given a TwoOptMutation raised AttributeError'),
    'genetic solvers of schedules use': ('C33', 'population, operators and rates given were ignored'),
})
TABLE.update({
    'projects with uncertain durations keep': ('C34', 'instances of a project with uncertain durations renewed every resource'),
    'tasks which do not mention a resource': ('C34', 'solving a project with a task that does not mention a resource raised KeyError'),
    'solvers of schedules leave the parameters': ('C34', 'the defaults of one solver stayed in the parameters given, and were used for the next domain'),
    'greedy schedules end when nothing fits': ('C34', 'a project which cannot be done raised IndexError or never ended; the greedy solver for calendars raised TypeError on problems without, although listed for them, and left the last slot before a change of a calendar unused'),
})
TABLE.update({
    'multi-skill schedules follow their vectors': ('C35', 'schedules ignored changed vectors, took people who contribute nothing, stopped at the first of several people, consumed calendars; verdicts raised or were wrong; copies and variants lost fields; encodings ranked people as numbers; modes counted from 0 were shifted'),
    'tasks shifted to the left after a search': ('C35', 'tasks shifted to the left overran resources'),
    'skills nobody has are still required': ('C35', 'a skill nobody has was dropped from the project handed to solvers'),
    'greedy schedules which end after the horizon': ('C35', 'a greedy schedule which ends after the horizon was called feasible'),
})
TABLE.update({
    'build the vehicle routing graph': ('C36', 'the vehicle routing solver raised AttributeError with the networkx installed'),
    'greedy knapsack solvers skip items heavier': ('C36', 'IndexError when an item is heavier than the capacity'),
    'knapsack items may have no weight': ('C36', 'ZeroDivisionError for items without weight'),
    'greedy and dynamic programming knapsack solvers mark': ('C36', 'items were marked as taken at their index instead of their position'),
    'knapsack dynamic programming goes through': ('C36', 'IndexError when a greedy start drops items heavier than the capacity'),
    'vectorised knapsack dynamic programming': ('C36', 'the vectorised variant took items which do not fit'),
    'knapsack integer programs return': ('C36', 'items taken were returned in the order of their indexes'),
    'the saturation colouring strategy': ('C36', 'no colouring was returned for the dsatur strategy'),
    'colouring integer programs constrain': ('C36', 'KeyError unless nodes are called 0 to n-1'),
    'exact solvers whose back end found nothing': ('C36', 'TypeError or IndexError when the back end found no solution'),
    'greedy facility location looks': ('C36', 'AssertionError or IndexError on problems where customers fit'),
    'the iterative travelling salesman program only cuts': ('C36', 'solving a second time found the program infeasible'),
    'the iterative travelling salesman program stops': ('C36', 'StopIteration when the back end found nothing'),
    'travelling salesman routes are compared': ('C36', 'distances were truncated to integers before they were scaled'),
    'large neighbourhood search over knapsacks': ('C36', 'KeyError unless items are indexed 0 to n-1'),
    'critical paths go through predecessors': ('C37', 'critical paths jumped over tasks, or ended before the source'),
    'schedules made time by time need': ('C37', 'tasks started when a resource was free at their start only'),
    'partial solutions have the relations': ('C37', 'AttributeError for partial solutions built without relations between starts'),
    'constraint handlers of scheduling programs': ('C37', 'TypeError: dictionary views cannot be sampled'),
    'scheduling programs have enough time steps': ('C37', 'infeasible programs or KeyError when the start solution is not feasible'),
    'scheduling programs return their best': ('C37', 'IndexError without solution; the best solution was the first of a permuted pool'),
    'programs of projects with calendars start': ('C37', 'the greedy start ignored calendars, so that programs had too few time steps'),
    'schedules made along critical paths may end': ('C37', 'KeyError when a task must end at the horizon'),
    'neighbourhoods of schedules may start': ('C37', 'ValueError when the current solution is not feasible'),
    'programs of projects of several modes keep': ('C37', 'modes and relations between starts of a partial solution were ignored'),
    'schedules made time by time start all': ('C37', 'tasks of no duration kept others from starting at the same time'),
    'domains wrapped as Gym environments speak': ('C38', 'reset returned an observation of the domain, not of the unwrapped space; actions of spaces which are not unwrapped were refused'),
    'discretized box actions have all': ('C38', 'only the first variable of a discretized action was set, the others were uninitialised memory'),
    'actions of multi-binary and dictionary': ('C38', 'TypeError for multi-binary and dictionary action spaces'),
    'binary features of Gym states': ('C38', 'TypeError when counting binary features; -0.0 had one more than other numbers'),
    'boundary features of Gym states exist': ('C38', 'RuntimeError or ValueError unless all variables are in boxes'),
    'elliptical features exist': ('C38', 'AttributeError or IndexError unless states are vectors'),
    'states of Gym environments may be arrays': ('C38', 'ValueError when get_state gives an array'),
    'Gym environments whose state cannot be read': ('C38', 'after a failure in the first reset, the next restored a state nobody had read'),
    'Gym planning domains may observe': ('C38', 'RuntimeError for multi-discrete observations'),
    'list spaces may have arrays': ('C38', 'ValueError when asking whether an array is in a list space'),
    'equal Gym states are equal whatever': ('C38', 'equal dictionary observations were different states'),
})
TABLE.update({
    'uncertain graph domains have distributions': ('C39', 'the distribution of next states was a random pair of state and probability'),
    'actions of graph domains know': ('C39', 'no action was applicable: contains gave None'),
    'graph domains are Markovian': ('C39', 'TypeError: states were taken for memories; is_goal and is_terminal were only overridden for callers from outside'),
    'merging graph domains leaves': ('C39', 'merging changed the first graph, later merges the second'),
    'full explorations go beyond': ('C39', 'only the initial state was expanded'),
    'explorations give states': ('C39', 'domains were given memories instead of states'),
    'explorations without limits': ('C39', 'TypeError: comparison with None unless all limits are given'),
    'explorations do not leave': ('C39', 'actions of terminal states were asked for'),
    'explored graph domains have costs': ('C39', 'KeyError: None when asking for a cost; no state was a goal'),
    'explored uncertain graph domains have all': ('C39', 'transitions to states already met were lost'),
    'states of the same score': ('C39', 'TypeError: states were compared when scores are equal'),
    'policies of any domain can be evaluated': ('C39', 'AttributeError for domains which are not scheduling domains'),
    'a policy which starts in a goal': ('C39', 'the initial state had no value when it is a goal'),
    'policies are evaluated on distributions with': ('C39', 'AssertionError or KeyError for successors of probability 0'),
    'graph domains are domains of one agent': ('C39', 'AttributeError when asking whether an action is applicable'),
    'merged graph domains have the goals': ('C39', 'goals of the second graph were lost'),
})
TABLE.update({
    'planners made without a domain': ('C40', 'TypeError when entering a planner made without a domain factory'),
    'planners which solve again': ('C40', 'a planner used again planned in the domain of its first solve'),
    'entering a solver keeps': ('C40', 'processes launched before the with block were left running'),
})
TABLE.update({
    'all scores of MasterMind': ('C41', 'the observation space left out the score of a right guess'),
    'mazes may be open': ('C41', 'IndexError next to lines with spaces at their end; a first line beginning with spaces was moved to the left'),
    'mazes can be rendered': ('C41', 'AttributeError: the canvas has no set_window_title'),
})
TABLE.update({
    'genes of evolved programs': ('C42', 'TypeError for every mutation on this Python; with several rows, genes pointed to the same or later columns or no gene was possible'),
    'mutated programs run': ('C42', 'a program which ran before its mutation went on computing its old genes'),
    'clones of evolved programs': ('C42', 'children had a recurrency distance of 1 whatever that of the father'),
    'values of unbounded': ('C42', 'actions of unbounded boxes were not numbers; ZeroDivisionError for spaces with a single value'),
    'CGP acts in boxes': ('C42', 'IndexError or actions outside the space for tuples and boxes with several dimensions'),
    'CGP takes a domain': ('C42', 'a tuple of spaces was accepted when only its last space was supported'),
    'CGP evaluates its offspring': ('C42', 'PicklingError with more than one processor'),
    'ARS takes boxes': ('C42', 'ValueError for boxes with several dimensions'),
})
TABLE.update({'drawn programs leave out': ('C42', 'the list of nodes already drawn began with an uninitialised number')})
TABLE.update({
    'parsers can be imported': ('C43', 'ModuleNotFoundError or FileNotFoundError when a parser module was imported without its example data'),
    'written multi-skill solutions': ('C43', 'KeyError, or employees without their skills, when a written solution was read back'),
    'a project file torn off': ('C43', 'a file torn off before the availabilities was read as a project without resources and with other tasks'),
})
TABLE.update({'a torn multi-skill project': ('C43', 'a file torn between its tasks was read as a project with fewer tasks')})
TABLE.update({'merged Pareto front of minimized': ('C44', 'the worst points of all storages were taken for the front of results to be minimized')})

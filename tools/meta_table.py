# Property table, exec'd by meta.py.
D = 'skdecide/domains.py'
PS = 'skdecide/builders/solver/parallelability.py'
SIMNOTE = 'Seeded search over schedules and faults: finds violations, does not prove their absence. Trusts the ' \
          'simulated multiprocessing layer to behave like the real one (process isolation by copying, each primitive ' \
          'operation atomic).'

prop('C01', 'Concurrent requests never share a parallel domain',
     'When several caller threads ask a launched parallel domain to pick an idle domain for them, each caller gets a '
     'valid domain that nobody else holds, from the moment it is reserved until its result is collected. A caller that '
     'waits because all domains are busy is served once one is released, and every caller receives the result of its '
     'own request.',
     ['schedules', 'inputs'],
     'every interleaving of the reserve, send, serve, collect and release steps of any number of callers and workers, '
     'for every number of domains, both transports',
     NOPAR + ' Two callers colliding needs a switch between two particular operations.',
     [D], [('reservation of an idle domain', D + ': ParallelDomain.wake_up_domain'),
           ('release after collection', D + ': get_result of both parallel domains')],
     state=[('active flags', 'one shared flag per domain: reserved or idle', D + ': _active_domains')],
     observe=['return value of launch / the request methods', 'get_result'],
     technique='caller threads and worker processes on one seeded scheduler, exclusivity of slots checked at every '
               'hand-out, answers checked against an in-process reference domain, progress within a step budget',
     note=SIMNOTE)

prop('C02', 'A parallel domain answers exactly like its domain called in-process',
     'Every request that can be transmitted and does not fail is executed exactly once, on the domain copy that serves '
     'it, and yields to its caller the value that the same method or registered function with the same arguments '
     'returns when called in-process on a copy that received the same requests. This holds for both transports, for '
     'every request method of the domain interface, for methods requested by name and functions requested by index; '
     'the caller\'s own argument objects are never modified.',
     ['schedules', 'inputs', 'histories'],
     'every history of requests by any number of callers to any domains, under every schedule of callers and workers',
     NOPAR,
     [D], [('request encoding and worker loops', D + ': launch, _launch_domain_server_, _shm_launch_domain_server_'),
           ('request methods', D + ': ParallelDomain.reset ... call, __getattr__')],
     observe=['get_result'],
     technique='whole parallel system (callers, pipes, manager, shared memory, workers) in one process under a seeded '
               'scheduler; every answer compared with a per-domain reference replay (lost, repeated, reordered or '
               'misrouted requests change the answer)',
     note=SIMNOTE)

prop('C03', 'A failed request affects nothing but itself',
     'If a requested method raises, does not exist, or its arguments or result cannot be transmitted, the caller gets '
     'no value (neither an exception nor left-over arguments or results of any request), the failure is final for that '
     'request only, and the domain goes on serving later requests correctly. A request that could not be sent leaves '
     'its domain idle and available.',
     ['fault_sequences', 'schedules', 'histories'],
     'every sequence of failing and succeeding requests on every domain, every failure point (while decoding '
     'arguments, in the method before or after it changed state, while encoding the first or a later result), every '
     'schedule',
     NOPAR + ' None injects a failure.',
     [D], [('worker error handlers', D + ': _launch_domain_server_, _shm_launch_domain_server_'),
           ('launch error handlers', D + ': launch of both parallel domains')],
     observe=['launch', 'get_result', 'answers to later requests'],
     technique='as C02 with injected failures of methods, arguments and results at every stage of a request; the '
               'reference model says which requests fail, all others must be answered exactly',
     note=SIMNOTE)

prop('C04', 'Shared-memory registers carry values intact and never across slots',
     'With the shared-memory transport, arguments and results of every registered type arrive unchanged and in order, '
     'including several values of the same type and types that occupy several cells, and never leak into another '
     'domain\'s request or a later request of the same domain. When there are not enough registers for a request or '
     'its result, that request fails instead of delivering damaged values.',
     ['inputs', 'schedules', 'configurations'],
     'every register layout (types, counts, cells per type), every combination of argument and result types, every '
     'schedule of callers and workers',
     NOPAR + ' The scripts use one layout with single values per type.',
     [D], [('register layout', D + ': ShmParallelDomain.__init__'),
           ('argument and result encoding', D + ': ShmParallelDomain.launch / get_result, _shm_launch_domain_server_')],
     state=[('registers', 'per domain, per type: the cells that carry values', D + ': _shm_arrays'),
            ('parameter map', 'which registers are in use by the current request', D + ': _shm_params')],
     observe=['get_result', 'arguments seen by the domain method'],
     technique='as C02 with generated register layouts and value mixes, concurrent slots writing their registers '
               'under a seeded scheduler, capacity overruns injected',
     note=SIMNOTE)

prop('C05', 'Closing a parallel domain always terminates and releases everything',
     'close(), or leaving the context manager normally or by an exception, returns in bounded time whatever state the '
     'domains are in (idle, serving, with failed or uncollected requests); afterwards no worker runs and no connection '
     'or temporary file of the parallel domain is left. Closing again does nothing, and using it again starts from '
     'scratch: no earlier request influences later answers.',
     ['schedules', 'histories', 'fault_sequences'],
     'every point of every request\'s life at which close can be called, every schedule, any number of close/relaunch '
     'cycles',
     NOPAR,
     [D], [('shutdown protocol', D + ': close of both parallel domains and the worker loops'),
           ('connection files', D + ': open_ipc_connection / close_ipc_connection')],
     observe=['close', '__exit__', 'worker processes', 'temporary files', 'parent pipe ends'],
     technique='as C03, closing at generated points with requests pending or uncollected, resource inventory after '
               'close, relaunch and reference comparison again; termination as progress within a step budget',
     note=SIMNOTE)

prop('C06', 'A dead worker is contained',
     'When a worker process dies while it constructs its domain or executes domain code, requests on the other '
     'domains are answered as if nothing had happened, and closing the parallel domain still terminates, ends every '
     'remaining worker and releases all resources.',
     ['crash_points', 'schedules', 'fault_sequences'],
     'death of any subset of workers at any point of domain code or construction, every schedule of the survivors',
     NOPAR + ' None kills a worker.',
     [D], [('per-worker channels', D + ': _launch_processes of both parallel domains'),
           ('shutdown', D + ': close of both parallel domains')],
     observe=['get_result on surviving domains', 'close', 'worker processes', 'temporary files'],
     technique='as C05 with workers crashing (no unwinding, locks and pipe ends as a killed process leaves them) at '
               'seeded points of domain code',
     note=SIMNOTE + ' Crashes inside the library\'s own critical sections are not promised against.')

prop('C07', 'Each request is notified exactly once, truthfully',
     'With notifications enabled, each executed request pushes exactly one message on the connection of the domain '
     'that served it, the success message if and only if the request succeeded; collecting the result then returns '
     'without waiting for anything else, also after a failure. With notifications disabled nothing is pushed.',
     ['schedules', 'fault_sequences', 'histories'],
     'every sequence of succeeding and failing requests, every schedule of workers, callers and the consumer of the '
     'notifications',
     NOPAR + ' The consumer is the C++ extension, which is not built.',
     [D], [('notifications', D + ': _launch_domain_server_, _shm_launch_domain_server_'),
           ('connections', D + ': open_ipc_connection, get_ipc_connections')],
     observe=['messages per connection', 'get_result'],
     technique='as C03 with simulated push sockets; callers that pull the notification before collecting; message '
               'counts and contents checked against the outcome of each request',
     note=SIMNOTE + ' The C++ consumer itself is not run.')

prop('C08', 'Solver domain calls are transparent to parallel execution',
     'A solver built on the parallel-capable solver base gets from a domain method call the same value whether it runs '
     'sequentially, over pipes or over shared memory; asking for its domain creates it on first use and then always '
     'gives the same object; after closing, no worker is left and the solver can be used again.',
     ['schedules', 'configurations', 'histories'],
     'every history of calls including failing ones, from one or several threads, all three execution modes',
     NOPAR,
     [PS, D], [('domain creation', PS + ': ParallelSolver._initialize / get_domain'),
               ('calls', PS + ': ParallelSolver.call_domain_method'), ('close', PS + ': ParallelSolver.close')],
     observe=['call_domain_method', 'get_domain', 'close'],
     technique='as C03 through the solver base class, each answer compared with an in-process reference',
     note=SIMNOTE)

SC = 'skdecide/builders/scheduling/scheduling_domains.py'
SM = 'skdecide/builders/scheduling/scheduling_domains_modelling.py'
SB = 'skdecide/builders/scheduling/'
NOSCH = 'The scheduling tests run a few fixed toy projects with one solver each and compare the final makespan.'
SCHNOTE = 'Seeded search over problems, action histories, capacity faults and chance outcomes: finds violations, does ' \
          'not prove their absence. Trusts the 200-line reference model of harness/sched_model.py.'
SCHTECH = 'the domain executed step by step under a seeded scheduler that picks actions, chance outcomes and faults ' \
          '(capacity drops and repairs, starts and resumes beyond capacity, pauses, resets, returns to earlier states, ' \
          'restarts from saved states); '

prop('C09', 'Scheduling accounts for every resource exactly and never oversubscribes it',
     'In every reachable state of a scheduling domain, the use of each resource is exactly what the ongoing tasks hold '
     'plus the non-renewable amounts consumed so far: a task takes what its mode needs when it starts or resumes, '
     'follows a varying consumption while it runs, and gives back renewable resources when it completes or pauses, '
     'non-renewable ones never on completion. Availability follows the calendar. Starting or resuming a task '
     'never takes a resource beyond its availability: a request that does not fit or lacks skills changes nothing.',
     ['histories', 'inputs', 'fault_sequences'],
     'every project (modes, durations including zero, calendars, resource units and skills), every history of '
     'start, pause, resume and time-progress actions, every capacity drop, in deterministic, uncertain and simulated '
     'domains, in place or not',
     NOSCH + ' None checks resource levels, pauses or calendars.',
     [SC, SB + 'modes.py', SB + 'skills.py'],
     [('taking and releasing resources', SC + ': update_start_tasks, update_pause_tasks, update_resume_tasks, '
                                              'update_complete_tasks, update_complete_dummy_tasks (and _uncertain)'),
      ('varying consumption', SC + ': update_res_consumption'), ('calendar', SC + ': update_resource_availability'),
      ('admission', SC + ': check_if_action_can_be_started')],
     state=[('resource_used', 'amount in use per resource', SM + ': State'),
            ('resource_used_for_task', 'amount held per ongoing task', SM + ': State')],
     observe=['get_next_state', 'get_next_state_distribution', 'sample', 'step'],
     technique=SCHTECH + 'resource levels of every state compared with an independent reference', note=SCHNOTE)

prop('C10', 'Scheduling time, durations, modes and makespan costs are exact',
     'Time advances by one exactly on time-progress actions. A task runs for the duration drawn at its start, counted '
     'while it is ongoing; start, end, mode, progress and active time are recorded accordingly, and zero-duration '
     'tasks complete at once. The transition costs of the makespan objective add up to the elapsed time, also in '
     'place; the cost objective charges the cost of the chosen mode at each start.',
     ['histories', 'inputs'],
     'every project and every history of actions, in every kind of scheduling domain, by every transition method',
     NOSCH,
     [SC, SB + 'task.py', SB + 'task_duration.py', SB + 'task_progress.py'],
     [('time', SC + ': update_time'), ('progress and completion', SC + ': update_progress, update_complete_tasks'),
      ('costs', SC + ': _get_transition_value'), ('task record', SB + 'task.py: Task')],
     observe=['get_next_state', 'sample', 'step', 'get_transition_value'],
     technique=SCHTECH + 'dates, progress and costs compared with an independent reference', note=SCHNOTE +
     ' Costs of resources per time unit are not claimed.')

prop('C11', 'A scheduling project moves only through legal phases and completes',
     'Each existing task is at any time in exactly one of the phases remaining, ongoing, paused, complete, and moves '
     'only forward through legal actions; goal and terminal tests agree with the phases, the horizon and the '
     'non-renewable resources left. The actions offered in a state are exactly those that can be carried out there: '
     'every startable mode of every task whose predecessors are complete, pauses, resumes and waiting; while '
     'capacity is exceeded only pausing and waiting. Starting whatever is offered completes the project within a '
     'bounded time once capacity is restored.',
     ['histories', 'inputs', 'fault_sequences'],
     'every project and history of actions and capacity changes; every state\'s offered actions',
     NOSCH + ' None looks at the offered actions.',
     [SC, SB + 'resource_renewability.py'],
     [('offered actions', SC + ': SchedulingActionSpace, SchedulingActionSpaceWithResourceUnitSamplable, '
                               'get_possible_starting_tasks, get_possible_resume_tasks'),
      ('goal and terminal tests', SC + ': _get_goals_, _is_terminal; all_tasks_possible')],
     state=[('phase sets', 'tasks_remaining, tasks_ongoing, tasks_paused, tasks_complete', SM + ': State')],
     observe=['get_applicable_actions', 'is_goal', 'is_terminal', 'step'],
     technique=SCHTECH + 'phases and offered actions compared with an independent reference; progress to completion '
                         'within a bounded number of steps after the last fault', note=SCHNOTE)

prop('C12', 'Pausing and resuming tasks is exact',
     'A paused task makes no progress and holds no renewable resource, and keeps or returns its non-renewable ones as '
     'declared. Resuming takes its resources again, in the given or the previous mode, and continues its progress '
     'or, for tasks of type Restart, begins again; a resume that does not fit leaves the task paused. Paused time is '
     'recorded and excluded from the active time.',
     ['histories', 'inputs', 'fault_sequences'],
     'every history with any number of pauses and resumes of any tasks, at any point, with any capacity changes',
     NOSCH + ' No test pauses a task.',
     [SC, SB + 'task.py', SB + 'preemptivity.py'],
     [('pause and resume', SC + ': update_pause_tasks, update_resume_tasks'), ('active time', SB + 'task.py: '
                                                                               'get_task_active_time')],
     observe=['get_next_state', 'get_next_state_distribution', 'sample', 'step'],
     technique=SCHTECH + 'every state of runs rich in pauses compared with an independent reference', note=SCHNOTE)

prop('C13', 'Uncertain scheduling transitions are proper distributions',
     'The next-state distribution of an uncertain scheduling domain sums to one and contains exactly the states '
     'obtained by applying the deterministic rules to each combination of drawn durations and drawn completion '
     'conditions, with the product of their probabilities; sampling and stepping return members of it, and '
     'a deterministic domain yields its single next state through every method.',
     ['inputs', 'histories'],
     'every reachable state and action of every uncertain project',
     NOSCH + ' None inspects a distribution.',
     [SC], [('outcomes of starts', SC + ': update_start_tasks_uncertain, update_complete_dummy_tasks_uncertain'),
            ('outcomes of completions', SC + ': update_complete_tasks_uncertain')],
     observe=['get_next_state_distribution', 'sample', 'step'],
     technique=SCHTECH + 'each distribution aggregated and compared in full with the reference; the adversary picks '
                         'the outcome to continue from', note=SCHNOTE)

prop('C14', 'Scheduling states are values',
     'Computing a transition, a distribution, applicable actions or a test never changes a state handed out earlier, '
     'outcomes of one transition share nothing, a reset always gives the initial state, also in place. Two states '
     'are equal, with equal hashes, exactly when their contents are, however they were reached: starting '
     'compatible tasks in any order, or restoring a saved state, gives equal states.',
     ['histories', 'schedules', 'crash_points'],
     'every history, every order of commuting actions, every point of saving and restoring a state',
     NOSCH + ' None compares states.',
     [SC, SM, SB + 'task.py'],
     [('copying', SM + ': State.copy'), ('equality and hash', SM + ': State.__eq__, __hash__'),
      ('in-place mode', SC + ': set_inplace_environment')],
     observe=['states returned by every transition method', 'get_initial_state', 'reset'],
     technique=SCHTECH + 'all states of a run re-read at its end and compared with what they were; equality and '
                         'hashes compared with contents; both orders of commuting starts executed', note=SCHNOTE)

prop('C15', 'Conditional tasks exist exactly when their conditions hold',
     'The conditions of a state are those drawn by the completed tasks; a conditional task becomes remaining at the '
     'transition at which its last condition is added, never before, and then behaves like any task; predecessors '
     'that do not exist do not block, and a project is complete only if no existing task is left.',
     ['histories', 'inputs'],
     'every set of existence and completion conditions, every outcome of the draws, every order of completion',
     NOSCH + ' One toy project has conditional tasks.',
     [SC, SB + 'conditional_tasks.py'],
     [('drawing conditions', SC + ': update_complete_tasks_uncertain, update_complete_dummy_tasks_uncertain'),
      ('enabling tasks', SC + ': update_conditional_tasks_uncertain'),
      ('existence', SB + 'conditional_tasks.py: _get_available_tasks, _get_all_unconditional_tasks')],
     state=[('_current_conditions', 'conditions observed so far', SM + ': State')],
     observe=['get_next_state_distribution', 'sample', 'step', 'is_goal'],
     technique=SCHTECH + 'existing tasks, conditions and goal of every outcome compared with an independent '
                         'reference', note=SCHNOTE)

B = 'skdecide/builders/domain/'
NOENV = 'The tests step a handful of toy domains for a few steps; almost all are Markovian, single-agent and fully ' \
        'observable, and none fails on the way.'
ENVNOTE = 'Seeded search over generated domains, histories and failures: finds violations, does not prove their ' \
          'absence. The domain functions are generated; everything built on them is the real code.'

prop('C16', 'Environments answer as their model and history say',
     'For every combination of domain characteristics, resetting, stepping, sampling and every query answer exactly '
     'what the domain\'s own functions give for the sequence of states seen so far, cut to the memory the domain '
     'declares. A reset or a set memory starts a new sequence; queries, failed steps, other environments and '
     'duplicates change nothing; memory objects of the caller are never modified. Seen through the characteristics a '
     'solver asks for, the answers are the same.',
     ['histories', 'inputs', 'fault_sequences'],
     'every combination of agent, concurrency, dynamics, memory, observability, event, initialization, goal, '
     'constraint and value characteristics, every history of operations on any number of environments, every failure '
     'of a domain function',
     NOENV,
     [B + 'dynamics.py', B + 'memory.py', B + 'initialization.py', B + 'observability.py', B + 'events.py',
      B + 'goals.py', B + 'constraints.py', B + 'renderability.py', 'skdecide/core.py'],
     [('memory update', B + 'dynamics.py: Environment._step, Simulation._set_memory'),
      ('memory creation', B + 'memory.py: _init_memory, _get_memory_maxlen'),
      ('default implementations', B + 'dynamics.py, initialization.py, observability.py, events.py'),
      ('views', 'skdecide/core.py: cast_dict, autocast, autocast_all')],
     state=[('_memory', 'state or history reached', B + 'memory.py: History')],
     observe=['every public method of a domain'],
     technique='interleaved histories of operations on several environments built from generated domain classes with '
               'injected failures in domain functions, each answer compared with a reference that keeps only the '
               'sequence of states', note=ENVNOTE)

U = 'skdecide/utils.py'
prop('C17', 'A rollout is exactly the requested episodes',
     'A rollout runs the requested number of episodes, each from a reset of domain and solver or from the given memory; '
     'at every step the solver is given the last observation and its answer is applied once, until the domain '
     'terminates or the step limit is reached, never faster than the given frame rate. Each state is rendered if '
     'asked, a random walk takes applicable actions only, what is returned is what happened, and a failing function '
     'stops the rollout at once.',
     ['histories', 'inputs', 'fault_sequences'],
     'every domain, solver, starting memory, number of episodes, step limit, frame rate and duration of the functions, '
     'every failure of one of them, every history of rollouts and other operations on the same domain',
     'The tests run a few rollouts of at most some dozen steps and look at none of the calls they make; no test uses a '
     'memory, a frame rate or a failing function.',
     [U, B + 'dynamics.py'],
     [('episode loop', U + ': rollout, rollout_episode'), ('random walk', U + ': RandomWalk'),
      ('pacing', U + ': max_framerate')],
     observe=['calls to the domain and to the solver with their simulated times', 'result of rollout_episode'],
     technique='rollouts of generated domains and solvers under a simulated clock with injected delays and failures; '
               'the recorded calls, times and results are checked against the episodes requested', note=ENVNOTE)

prop('C18', 'Saved rollouts are complete and never overwritten',
     'A rollout that is asked to save its results and returns has written, for each of its episodes, a directory of '
     'its own holding exactly the observations, actions and transitions of that episode; a part that cannot be '
     'serialized is left out. Nothing saved before, by this or another process, is ever changed, whatever the clock '
     'says, and a disk error is reported to the caller without damaging other episodes or later rollouts.',
     ['fault_sequences', 'histories', 'inputs'],
     'every history of saved rollouts, every disk error at every directory creation, open, write or close, every clock '
     'jump, every directory another process creates meanwhile',
     'No test saves a rollout.',
     [U],
     [('saving', U + ': rollout, save_result_directory')],
     observe=['files below the directory', 'return value or exception of rollout'],
     technique='histories of saved rollouts on a scratch disk with injected errors, a simulated clock that jumps, and '
               'rival processes; all files compared with the episodes that happened',
     note=ENVNOTE + ' Single-agent fully observable domains with hashable states and actions only.')

HS = 'skdecide/hub/solver/'
prop('C19', 'Scheduling policies follow their plan whatever happens',
     'A policy built from a plan (task order, modes, planned times, allocated units) answers in every reachable state, '
     'also when durations, capacities and conditions turn out differently, with an action that can be carried out '
     'there. Ready-list: start the first task of the order that can start, wait only if none can. Strict and '
     'precedence: the first ready task, else one planned at its time; time and index freedom: also those within the '
     'margin; Gantt: a ready task planned exactly now. Modes and units are the planned ones. Pile policies choose '
     'greedily among the startable tasks in mode 1. Asking changes nothing, answers have no memory. Alone, a list '
     'policy completes the project in bounded time; following a plan that holds reproduces it.',
     ['histories', 'inputs'],
     'every project, plan and policy, every state reached by any history of actions, every way the execution departs '
     'from the plan (durations, capacity losses, conditions, actions of others, pauses, returns to earlier states)',
     'The tests follow three plans on toy projects whose execution equals the plan.',
     [HS + 'sgs_policies/sgs_policies.py', HS + 'pile_policy/pile_policy.py', SB + 'precedence.py', SC],
     [('answers', HS + 'sgs_policies/sgs_policies.py: next_action_*'),
      ('greedy answers', HS + 'pile_policy/pile_policy.py: PilePolicy._get_next_action'),
      ('ready tasks', SB + 'precedence.py: _task_possible_to_launch_precedence'),
      ('applicability', SC + ': check_if_action_can_be_started')],
     observe=['get_next_action', 'states reached by executing the answers'],
     technique=SCHTECH + 'every answer of several policies in every state compared with a reference while the '
                         'execution is made to depart from the plan; bounded completion after the last fault',
     note=SCHNOTE)

HH = 'cpp/src/hub/solver/'
XX = 'cpp/src/utils/execution.hh'
CXNOTE = 'Seeded search over generated problems, schedules and faults: finds violations, does not prove their absence. ' \
         'The real headers, compiled against stand-ins for the logging library, the parallel algorithms and the ' \
         'build configuration; memory is sequentially consistent; no exception inside parallel loops; the Python ' \
         'bindings are not run.'
CXTECH = 'the real C++ planner on generated problems, its threads as fibers of a seeded scheduler that preempts at ' \
         'locks, atomics, domain calls and plain memory accesses, simulated clock and randomness, poisoned memory, ' \
         'injected domain failures, clock jumps and stalled threads; '
CXT = 'The tests run each planner once or twice from one state of a small grid, in an order of threads nobody controls, ' \
      'and need a compiled extension.'
SPACE = 'every problem, every order of searches, queries and clearing, every interleaving of the threads of the parallel ' \
        'version, every place where the domain fails or the clock jumps'


def planner(pid, title, statement, files, anchors, tech, beyond=CXT):
    prop(pid, title, statement, ['inputs', 'histories', 'schedules', 'fault_sequences'], SPACE, beyond, files + [XX], anchors,
         observe=['is_solution_defined_for, get_best_action, get_best_value and the counters of the solver',
                  'calls of the domain'],
         technique=CXTECH + tech, note=CXNOTE)


planner('C20', 'A* plans are cheapest',
        'With non-negative costs and a consistent heuristic, a search of the A* solver from a state, sequential or '
        'parallel, returns; it claims a solution exactly if a goal can be reached. From every state for which a solution '
        'is claimed, following the best actions reaches a goal at minimal cost, and the best value is that cost (zero for '
        'a goal the search started from). This stays true for all earlier answers after any further searches from other '
        'states. A failing domain is reported and after clear() the solver works as new.',
        [HH + 'astar.hh'], [('search', HH + 'astar.hh: solve'), ('answers', HH + 'astar.hh: get_best_action, get_best_value')],
        'plans followed and compared with shortest paths')
planner('C21', 'AO* policies are optimal and complete',
        'On acyclic problems with an admissible heuristic, for every discount factor and number of tip expansions at a '
        'time, an AO* search returns; it claims a solution exactly if some policy surely reaches a goal. Every claimed '
        'solution covers all outcomes of its actions, surely reaches goals, is optimal in expected cost, and its value is '
        'that cost. Dead ends, shared successors and several searches are handled. On graphs with cycles the search '
        'returns or, if cycles are to be detected, reports one.',
        [HH + 'aostar.hh'], [('search', HH + 'aostar.hh: solve')],
        'policies evaluated exactly and compared with the optimum of a reference value iteration')
planner('C22', 'ILAO* policies are complete and near-optimal',
        'On problems where every state that is no dead end can surely reach a goal, with an admissible heuristic, an '
        'ILAO* search returns. Its policy from the start covers all outcomes, surely reaches goals, and its expected cost '
        'and its value are within the given epsilon, per expected step, of the optimum. Policy, single answers and '
        'counters agree. This holds for every order of searches and every interleaving of threads.',
        [HH + 'ilaostar.hh'], [('search', HH + 'ilaostar.hh: solve'), ('convergence', HH + 'ilaostar.hh: update_solved_bits')],
        'policies evaluated exactly and compared with the optimum of a reference value iteration')
planner('C23', 'LRTDP values are sound and labels are true',
        'An LRTDP search returns within its rollout and time budgets (up to what each thread has under way). Its values '
        'never exceed the optimal expected cost, its actions are applicable. If it stops before its budgets are used '
        'up, the policy from the start is complete, surely reaches goals and is within epsilon, per expected step, of '
        'the optimum. Dropping unreachable nodes while an agent acts changes no answer on what remains, and later '
        'searches are not affected. The policy agrees with single answers.',
        [HH + 'lrtdp.hh'], [('labels', HH + 'lrtdp.hh: check_solved'), ('trials', HH + 'lrtdp.hh: trial'),
                            ('dropping nodes', HH + 'lrtdp.hh: get_best_action')],
        'values bounded by, and policies compared with, a reference value iteration; elapsed simulated time')
planner('C24', 'BFWS finds a plan if there is one',
        'A BFWS search returns and claims a solution exactly if a goal can be reached, for every heuristic and feature '
        'function. From every state for which a solution is claimed, following the best actions reaches a goal and the '
        'best value is the cost of that plan (zero for a goal the search started from), also after further searches from '
        'other states. A failing domain is reported and after clear() the solver works as new.',
        [HH + 'bfws.hh'], [('search', HH + 'bfws.hh: solve'), ('novelty', HH + 'bfws.hh: novelty')],
        'plans followed to their end and their costs compared with the values')
planner('C25', 'IW plans are sound and complete within the width',
        'An IW search returns. From every state for which a solution is claimed, following the best actions reaches a goal '
        'through non-terminal states, and the best value is the cost of that plan, also after further searches from other '
        'states. If no two states have the same features, a solution is claimed exactly if a goal can be reached. The '
        'intermediate scores never get worse and end with the value of the plan; after a first plan the search stops when '
        'its time budget is over.',
        [HH + 'iw.hh'], [('widths', HH + 'iw.hh: solve'), ('novelty', HH + 'iw.hh: novelty, generate_tuples')],
        'plans followed to their end and their costs compared with the values; elapsed simulated time')
planner('C30', 'Monte-Carlo trees are the domain, every rollout counted once',
        'An MCTS/UCT search, in step, sample or distribution mode, with one or several threads, returns within its rollout '
        'and time budgets (up to what each thread has under way). It only tries applicable actions, never goes on after '
        'the end of an episode nor beyond the maximal depth. Its tree has the outcomes, probabilities and rewards of the '
        'domain; visits are counted once under every interleaving; values are returns of rollouts of the domain, means '
        'where they are determined. It advises the applicable action with the best value among those tried, and the '
        'policy agrees with single answers. Acting, dropping nodes, new episodes, clear() and failing domains leave '
        'nothing dangling or stale behind.',
        [HH + 'mcts.hh'], [('search', HH + 'mcts.hh: MCTSSolver::solve'), ('expansion', HH + 'mcts.hh: FullExpand'),
                           ('rollouts', HH + 'mcts.hh: DefaultRolloutPolicy'), ('values', HH + 'mcts.hh: GraphBackup')],
        'trees compared node by node with the domain, counts of visits conserved, values bounded by exact returns')

planner('C31', 'Rollout width search learns what its rollouts meet',
        'An RIW search, in an environment or a simulator, with one or several threads, returns within its rollout and time '
        'budgets (up to what each thread has under way). It only tries applicable actions of the episode as it is, having '
        'replayed exactly the actions taken, in order, and never goes on after the end of an episode. After a rollout it '
        'has an applicable answer for the start. Values agree with the rewards and outcomes of the answers; a search that '
        'has seen everything without pruning is optimal. A state with a feature value no other state has is not pruned. '
        'Counts, policy and single answers agree, and acting, dropping nodes, new episodes, clear() and failing domains '
        'leave nothing stale behind.',
        [HH + 'riw.hh'], [('rollouts', HH + 'riw.hh: rollout'), ('novelty', HH + 'riw.hh: novelty, generate_tuples'),
                          ('values', HH + 'riw.hh: backup_values'), ('acting', HH + 'riw.hh: get_best_action, update_graph')],
        'values compared with the domain and an exact optimum, counts conserved, the simulated episode refuses wrong actions')

SV = 'skdecide/solvers.py'
prop('C26', 'Solvers and domains meet in each other\'s terms',
     'A solver class accepts a domain exactly if the domain has every characteristic its domain class asks for and passes '
     'its own additional check; matching gives exactly the accepted classes, in order. '
     'Registered classes are loaded by name; matching leaves out those which cannot be loaded. While it solves or loads, a solver '
     'gets domains that answer in its terms. After solve_with, solved or loaded, callers ask in the terms of the domain: '
     'each question reaches the solver once, in its terms, and its action, distribution, utility, q value or definedness '
     'comes back in theirs. This stays so however often it is solved, loaded, saved, reset, given another domain, or '
     'fails; a failure reaches the caller. A solver context initializes on entry and cleans up on every exit.',
     ['histories', 'inputs', 'fault_sequences'],
     'every combination of characteristics of solver and domain, every history of solving, asking, saving, loading and '
     'failing on any number of solvers and domains',
     'The tests cast single functions between two extreme domain classes; none reuses, loads or matches a solver.',
     [SV, 'skdecide/domains.py', 'skdecide/core.py', 'skdecide/builders/solver/policy.py', 'skdecide/utils.py'],
     [('requirements', SV + ': Solver._get_domain_requirements, _check_domain'),
      ('casting', 'skdecide/domains.py: Domain.solve_with; skdecide/core.py: autocast_all'),
      ('derived answers', 'skdecide/builders/solver/policy.py'), ('matching', 'skdecide/utils.py: match_solvers')],
     observe=['check_domain', 'match_solvers', 'solve_with', 'every public method of a solver', 'what the solver is given'],
     technique='histories of operations on generated solvers and domains of every combination of characteristics with '
               'injected failures; everything a solver is given and every answer compared with a reference cast',
     note='Seeded search: finds violations, does not prove their absence. Solvers and domain functions are generated; '
          'everything between them is the real code.')

HS = 'skdecide/hub/solver/'
prop('C27', 'Forward searches follow the domain to its goals',
     'On every deterministic goal domain LazyAstar ends, and its policy leads from the start to a goal whenever one can be '
     'reached, with a consistent heuristic for at most the weight times the cheapest cost; utilities along the way are the '
     'cost still to come, elsewhere the heuristic\'s. LRTAstar ends within its trials; where it defines a policy it leads '
     'to a goal within the allowed depth; with positive costs, a consistent heuristic and enough trials it is a cheapest '
     'one and its utility the exact cost, and no utility ever exceeds the true cost. No policy is defined where no goal '
     'can be reached. SimpleGreedy does an applicable action of highest expected immediate reward. Only applicable '
     'actions are ever tried. This stays so for any equality and hash of states, for goals as starts, when one solver '
     'object solves again or for another domain, and after a solve which failed: the failure reaches the caller and '
     'leaves nothing behind.',
     ['inputs', 'histories', 'fault_sequences'],
     'every table of transitions, costs, goals and heuristic values, every history of solving, failing and asking',
     'The tests solve one grid world once per solver.',
     [HS + 'lazy_astar/lazy_astar.py', HS + 'lrtastar/lrtastar.py', HS + 'simple_greedy/simple_greedy.py'],
     [('search', HS + 'lazy_astar/lazy_astar.py: LazyAstar._solve_domain'), ('trials', HS + 'lrtastar/lrtastar.py: LRTAstar.doTrial'),
      ('greedy choice', HS + 'simple_greedy/simple_greedy.py: SimpleGreedy._get_next_action')],
     observe=['solve', 'is_policy_defined_for', 'get_next_action', 'get_utility', 'the calls the domain receives'],
     technique='histories of solves on generated tables with domain failures at any call; policies followed to their end '
               'and compared with exact shortest paths; every call of the domain checked and bounded',
     note='Seeded search: finds violations, does not prove their absence. Optimality is claimed only for consistent '
          'heuristics which are 0 in goals.')

GT = 'skdecide/builders/discrete_optimization/generic_tools/'
prop('C28', 'Local search never loses the best solution it met',
     'A hill climbing or annealing search makes exactly the allowed number of moves, each from the solution it accepted '
     'last, or from the one before if the move was not accepted (moves may work in place and are taken back once), or, '
     'after more iterations without improvement than the restart handler allows, from the best one. Improvements are '
     'always accepted, hill climbing accepts nothing else, annealing accepts equal ones always and worse ones only if the '
     'temperature lets it. The result holds the start and the best solution met (all, if asked to store them), each '
     'intact and with its true fitness, and every way of asking gives a best one in the sense of the objective; a Pareto '
     'front is exactly the non-dominated solutions. The start is not modified; solvers and handlers can be used again; a '
     'failing problem reaches the caller.',
     ['inputs', 'histories', 'fault_sequences'],
     'every problem, objective sense and weighting, every sequence of in-place and copying moves, random choices, restarts '
     'and failures, every sequence of operations on a result storage',
     'No test runs a local search or a result storage.',
     [GT + 'ls/hill_climber.py', GT + 'ls/simulated_annealing.py', GT + 'ls/local_search.py', GT + 'result_storage/result_storage.py'],
     [('climbing', GT + 'ls/hill_climber.py: HillClimber.solve, HillClimberPareto.solve'),
      ('annealing', GT + 'ls/simulated_annealing.py: SimulatedAnnealing.solve'), ('restarts', GT + 'ls/local_search.py: RestartHandlerLimit'),
      ('results', GT + 'result_storage/result_storage.py: ResultStorage, ParetoFront')],
     observe=['the solutions moves are asked for', 'the result storage returned', 'its pairs, best solutions and front'],
     technique='real search loops on generated problems with in-place and copying moves, seeded randomness and injected '
               'failures; each step compared with the steps a reference allows, results with everything that was met',
     note='Seeded search: finds violations, does not prove their absence. Acceptance probabilities are checked only where '
          'they are 0 or 1; the heap of best scores of a storage is not claimed.')
prop('C29', 'Large neighbourhood search keeps everything it found',
     'LNS over a CP or MILP solver starts from the given solution or none, solves once per iteration under exactly one '
     'neighbourhood made from results that hold a solution (none while there is none), never an old one, and leaves no '
     'constraints behind. It ends after the allowed iterations, or the first one that ends beyond the time limit, or more '
     'consecutive iterations without improvement than allowed, whatever the clock does. An iteration which finds nothing, '
     'or whose CP solve fails, costs that iteration only. The result holds exactly the starting solutions and all that '
     'was found or made by post-processing, each with its fitness, and its best is the best in the sense of the objective.',
     ['histories', 'fault_sequences', 'timings'],
     'every sequence of sub-solver results, failures, durations and clock jumps, for both senses',
     'No test runs an LNS; sub-solver failures and time limits depend on the machine.',
     [GT + 'lns_cp.py', GT + 'lns_mip.py', GT + 'result_storage/result_storage.py'],
     [('CP', GT + 'lns_cp.py: LNS_CP.solve_lns'), ('MILP', GT + 'lns_mip.py: LNS_MILP.solve_lns')],
     observe=['solve_lns', 'neighbourhoods active at each solve', 'the storage returned'],
     technique='the real loops over simulated sub-solvers, constraint handlers and clock, with failing, empty and slow '
               'iterations and clock jumps; number of iterations, active constraints and results compared with a reference',
     note='Seeded search: finds violations, does not prove their absence. Sub-solvers, handlers and clock are simulated.')

DOB = 'skdecide/builders/discrete_optimization/'
prop('C32', 'Solutions are worth what they are',
     'For the discrete optimization problems (knapsack with one or several objectives, travelling salesman, coloring, facility '
     'location, vehicle routing, scheduling with one or several modes and with calendars, and robust aggregates of several '
     'problems), the objectives, feasibility, lengths and schedule of a solution are those of its present content in its '
     'present problem: whatever moves, local searches, assignments, copies, changes of problem or failed evaluations came '
     'before, and whoever reports them. A move leads to a valid content; taken back it restores the content before, applied '
     'again the content it had led to. Copies share nothing with their original. Evaluating changes no content. Encodings are '
     'worth what the solution they stand for is worth, and the schedule of a permutation and modes is the earliest one in that order.',
     ['histories', 'inputs', 'fault_sequences'],
     'every problem, every registered move and every history of moves, moves taken back, copies and assignments',
     'No test makes a solution of a discrete optimization problem.',
     [DOB + 'generic_tools/do_problem.py', DOB + 'rcpsp/rcpsp_model.py', DOB + 'tsp/tsp_model.py', DOB + 'tsp/mutation/mutation_tsp.py',
      DOB + 'knapsack/knapsack_model.py', DOB + 'knapsack/mutation/mutation_knapsack.py', DOB + 'vrp/vrp_model.py',
      DOB + 'coloring/coloring_model.py', DOB + 'facility/facility_model.py', DOB + 'generic_tools/mutations/permutation_mutations.py',
      DOB + 'generic_tools/mutations/mutation_integer.py', DOB + 'generic_tools/mutations/mutation_bool.py'],
     [('moves', DOB + 'generic_tools/mutations/permutation_mutations.py: SwapsLocalMove, TwoOptMove, ShuffleMove'),
      ('schedules', DOB + 'rcpsp/rcpsp_model.py: RCPSPSolution.generate_schedule_from_permutation_serial_sgs'),
      ('tours', DOB + 'tsp/tsp_model.py: SolutionTSP, TSPModel.evaluate'),
      ('robustness', DOB + 'generic_tools/do_problem.py: RobustProblem.evaluate')],
     observe=['contents, objectives, feasibility, lengths and schedules after each step compared with independent computations of the same problem'],
     technique='deterministic simulation with fault injection: seeded histories of moves on one solution, evaluations made to fail in the middle of moves, compared with a reference evaluation of the content',
     note='Seeded search: finds violations, does not prove their absence. Travelling salesmen in the plane; robust aggregates of '
          'problems with the same shape; route problems have no registered moves.')

prop('C33', 'Evolutionary searches keep to their vectors and return the best of them',
     'Genetic searches with one objective, with several, alternating between encodings, and those that solve schedules: every '
     'vector they evaluate is one of the encoding they search (its length, its ranges, permutations of its values) and is '
     'evaluated as the solution it stands for; evaluating does not change it. What they return was evaluated, is valid, is the '
     'best of all evaluations by the objectives and weights they were given (or those of the problem when none are given), with the fitness '
     'it has; of several objectives no vector better in all is lost to the whole returned population. Population sizes and evaluation budgets given are kept, '
     'all encodings get their turn, and a search after one that failed, or a second one, is as good as the first.',
     ['inputs', 'histories', 'fault_sequences'],
     'every problem, encoding, choice of operators, rates, population, budget and random sequence, and failures of any evaluation',
     'No test runs an evolutionary search.',
     [DOB + 'generic_tools/ea/ga.py', DOB + 'generic_tools/ea/nsga.py', DOB + 'generic_tools/ea/alternating_ga.py',
      DOB + 'generic_tools/ea/deap_wrappers.py', DOB + 'generic_tools/ea/ga_tools.py', DOB + 'rcpsp/solver/rcpsp_ga_solver.py',
      DOB + 'generic_tools/do_problem.py'],
     [('single objective', DOB + 'generic_tools/ea/ga.py: Ga'), ('several objectives', DOB + 'generic_tools/ea/nsga.py: Nsga'),
      ('several encodings', DOB + 'generic_tools/ea/alternating_ga.py: AlternatingGa'),
      ('schedules', DOB + 'rcpsp/solver/rcpsp_ga_solver.py: GA_RCPSP_Solver, GA_MRCPSP_Solver')],
     observe=['every vector evaluated and its objectives, compared with an independent evaluation; results, fitness and budgets against the history of evaluations'],
     technique='deterministic simulation with fault injection: seeded evolutionary searches whose every random choice the seed decides, evaluations made to fail at any point, judged against the history of their evaluations',
     note='Seeded search: finds violations, does not prove their absence. Vectors have at least two elements and selections which need '
          'positive fitness are not used (limits of the deap library).')

prop('C34', 'Schedules from the solvers can be carried out and are as announced',
     'A scheduling domain (one or several modes, calendars, non-renewable resources, from the hub or written by a user) handed to '
     'the discrete optimization solvers is the problem they solve: the same tasks, modes, durations, needs, resources over time and '
     'precedences, and so is the domain made back of a problem, and the certain instances of one with uncertain durations. The schedule '
     'the greedy, genetic and local search solvers return holds every task once and '
     'respects precedences, durations, resources at every time and non-renewables, its makespan and feasibility are as announced, '
     'and if there is no schedule this is what they say, after finitely many steps. The policies made of it finish the project in the domain, with its modes; the one that '
     'follows the plan starts each task exactly when planned; the solution made of the execution is what was executed. Parameters '
     'given are not changed, and a solver used again, after failures too, does as well as a new one.',
     ['inputs', 'histories', 'fault_sequences'],
     'every project, solver, parameter, execution policy and random sequence, repeated solves and failing evaluations',
     'No test solves a scheduling domain with a discrete optimization solver.',
     ['skdecide/hub/solver/do_solver/do_solver_scheduling.py', 'skdecide/hub/solver/do_solver/sk_to_do_binding.py',
      'skdecide/hub/domain/rcpsp/rcpsp_sk.py', DOB + 'rcpsp/solver/rcpsp_pile.py', DOB + 'rcpsp/solver/ls_solver.py',
      DOB + 'rcpsp/solver/rcpsp_ga_solver.py', DOB + 'rcpsp/rcpsp_solvers.py', DOB + 'rcpsp/rcpsp_model.py'],
     [('solver', 'skdecide/hub/solver/do_solver/do_solver_scheduling.py: DOSolver, from_solution_to_policy'),
      ('translation', 'skdecide/hub/solver/do_solver/sk_to_do_binding.py: build_do_domain, build_sk_domain, from_last_state_to_solution'),
      ('greedy', DOB + 'rcpsp/solver/rcpsp_pile.py: PileSolverRCPSP, PileSolverRCPSP_Calendar'),
      ('domains', 'skdecide/hub/domain/rcpsp/rcpsp_sk.py')],
     observe=['schedules and executions compared with the project by an independent check; announced makespans and verdicts; translated problems and domains'],
     technique='deterministic simulation with fault injection: seeded projects solved and executed end to end in one process, every random choice decided by the seed, evaluations made to fail, the external mode solver replaced by any choice it may make',
     note='Seeded search: finds violations, does not prove their absence. Constraint and linear programming solvers need external '
          'programs and are not run. Tasks are numbered from 1 with a start and an end task, as the solvers assume. Project domains let a task start '
          'when the resources are there at that time; executions other than the planned one are not held to calendars that change later.')

prop('C35', 'Projects with skilled people: schedules, verdicts and translations are right',
     'The schedule generated for an order of tasks, modes and priorities of people starts each task, in that order as precedences '
     'allow, as early as resources and people allow, with the first people of its list who have a required skill and are there the '
     'whole time, and nobody more than needed; a person does one task at a time, and the project ends before its horizon or is said '
     'not to be feasible. The verdict about any schedule, however made or damaged, is true: skills, presence, double work, resources '
     'at each time, non-renewables, precedences; so are makespans and fitness. Copies, vectors, fixed attributes and moves stand '
     'for themselves and leave problem and calendars as they were. Genetic, local and greedy searches return valid solutions with the '
     'fitness they announce, and the best they saw; shifting tasks to the left keeps a schedule valid and never makes it longer. '
     'Domains with people handed to solvers are the same project, and the policy made of a schedule executes it in the domain.',
     ['inputs', 'histories', 'fault_sequences'],
     'every project, calendars, people, encoding, vector, damage to a schedule, move, search and random sequence, and failures of any evaluation',
     'No test makes a project with skills.',
     [DOB + 'rcpsp_multiskill/rcpsp_multiskill.py', DOB + 'rcpsp_multiskill/solvers/lns_post_process_rcpsp.py',
      'skdecide/hub/solver/do_solver/sk_to_do_binding.py', 'skdecide/hub/solver/do_solver/do_solver_scheduling.py',
      'skdecide/hub/domain/rcpsp/rcpsp_sk.py'],
     [('schedules', DOB + 'rcpsp_multiskill/rcpsp_multiskill.py: sgs_multi_skill, MS_RCPSPSolution_Variant'),
      ('verdicts', DOB + 'rcpsp_multiskill/rcpsp_multiskill.py: MS_RCPSPModel.satisfy, evaluate'),
      ('encodings', DOB + 'rcpsp_multiskill/rcpsp_multiskill.py: MS_RCPSPModel_Variant'),
      ('shifts', DOB + 'rcpsp_multiskill/solvers/lns_post_process_rcpsp.py: PostProMSRCPSP')],
     observe=['schedules, people used and verdicts compared with an independent generation and check; returned solutions against the history of evaluations'],
     technique='deterministic simulation with fault injection: seeded projects, histories of changes and damages, searches whose every random choice the seed decides and whose evaluations are made to fail, and executions in one process, judged by an independent reference',
     note='Seeded search: finds violations, does not prove their absence. Constraint and linear programming solvers need external programs and are not run.')

prop('C36', 'Solvers of classic problems return what they announce, and optima',
     'Greedy, dynamic programming, integer programming and routing solvers of knapsack, colouring, facility location, travelling '
     'salesman and vehicle routing problems return valid solutions of the problem they were given - every item, node, customer '
     'and stop at its own place whatever it is called - with the value, weight, cost, colours and fitness these have. Solvers said '
     'to be exact return an optimum when they are neither stopped nor restricted, heuristics what can be done: a greedy knapsack leaves no '
     'room for an item worth taking, a greedy colouring needs at most one colour more than a node has neighbours, a greedy location '
     'exceeds a facility only when a customer fits nowhere else. The best of what a solver returns is the best it found. Stopped early, '
     'with less time or fewer items, asked again or failing in an evaluation, they still return true solutions, or none.',
     ['inputs', 'histories', 'fault_sequences'],
     'every problem, naming of items and nodes, solver, parameter, warm start, time budget, early stop of a back end and failing evaluation',
     'No test runs these solvers.',
     [DOB + 'knapsack/solvers/greedy_solvers.py', DOB + 'knapsack/solvers/dyn_prog_knapsack.py', DOB + 'knapsack/solvers/lp_solvers.py',
      DOB + 'knapsack/solvers/knapsack_lns_solver.py', DOB + 'coloring/solvers/greedy_coloring.py', DOB + 'coloring/solvers/coloring_lp_solvers.py',
      DOB + 'coloring/solvers/coloring_lp_lns_solvers.py', DOB + 'facility/solvers/greedy_solvers.py', DOB + 'facility/solvers/facility_lp_solver.py',
      DOB + 'facility/solvers/facility_lp_lns_solver.py', DOB + 'tsp/solver/solver_ortools.py', DOB + 'tsp/solver/solver_lp_iterative.py',
      DOB + 'vrp/solver/greedy_vrp.py', DOB + 'vrp/solver/solver_ortools.py'],
     [('knapsack', DOB + 'knapsack/solvers/dyn_prog_knapsack.py: KnapsackDynProg.solve, solve_np; lp_solvers.py'),
      ('colouring', DOB + 'coloring/solvers/greedy_coloring.py: GreedyColoring.solve; coloring_lp_solvers.py: ColoringLP_MIP'),
      ('facilities', DOB + 'facility/solvers/facility_lp_solver.py: LP_Facility_Solver_CBC, LP_Facility_Solver_PyMip'),
      ('tours', DOB + 'tsp/solver/solver_lp_iterative.py: LP_TSP_Iterative.solve, rebuild_tsp_routine')],
     observe=['every solution returned, its announced value and fitness, and the best among them, compared with an independent evaluation and enumeration'],
     technique='deterministic simulation with fault injection: seeded problems solved by histories of solvers over a simulated clock and simulated back ends which stop early or find nothing, with failing evaluations, judged by enumeration',
     note='Seeded search: finds violations, does not prove their absence. Integer programs are solved by HiGHS behind python-mip, as the installed CBC '
          'crashes and cannot be loaded beside OR-Tools; OR-Tools itself is a stand-in. Gurobi and MiniZinc solvers are not run.')

prop('C37', 'Exact schedules and critical paths are what they are called',
     'The integer programs of resource constrained projects - of one or several modes, with calendars, renewable and non-renewable '
     'resources - return schedules which respect precedences, capacities at every time and what a partial solution asks for (starts, '
     'modes, orders, tasks together, one at or after the end of another), which end when their modes do, stored with their own fitness; '
     'the shortest there are, when the back end is not stopped; the best of them as the best; none only when there is none, or nothing was '
     'found in time. Neighbourhood searches over them return schedules, not worse than the one they start from. Earliest and latest dates are '
     'those of the project without resources, a critical path lasts as long as that, and the schedules made from it are feasible and start '
     'every task as early as the order it follows allows. None of this changes the project, whatever was solved before.',
     ['inputs', 'histories', 'fault_sequences'],
     'every project, partial solution, start solution, handler of neighbourhoods, order, early stop of a back end and failing evaluation',
     'No test runs these solvers.',
     [DOB + 'rcpsp/solver/rcpsp_lp_solver.py', DOB + 'rcpsp/solver/rcpsp_lp_lns_solver.py', DOB + 'rcpsp/solver/cpm.py',
      DOB + 'generic_tools/lns_mip.py'],
     [('programs', DOB + 'rcpsp/solver/rcpsp_lp_solver.py: LP_RCPSP, LP_MRCPSP'),
      ('neighbourhoods', DOB + 'rcpsp/solver/rcpsp_lp_lns_solver.py: ConstraintHandler*; generic_tools/lns_mip.py: LNS_MILP.solve_lns'),
      ('critical paths', DOB + 'rcpsp/solver/cpm.py: CPM.run_classic_cpm, run_sgs_on_order, run_sgs_time_loop')],
     observe=['schedules, modes, announced ends and fitness, the best of each store, dates and paths, compared with an independent enumeration of schedules'],
     technique='deterministic simulation with fault injection: seeded projects solved by histories of programs, neighbourhood searches and critical paths over a simulated back end which stops early or finds nothing, with failing evaluations, judged by enumeration',
     note='Seeded search: finds violations, does not prove their absence. Programs are solved by HiGHS behind python-mip, as the installed CBC crashes. '
          'Projects have up to four tasks for programs and six for critical paths.')

prop('C38', 'Gym environments as domains, and domains as Gym environments, stay themselves',
     'A Gym environment wrapped as a domain shows its own observations, rewards, terminations and information, whatever order it is '
     'stepped, reset and rendered in. Wrapped with a fixed initial state it restarts there each time, also from the initial state of '
     'another copy. Wrapped as a deterministic domain, every transition depends on the state it leaves and the action only: states can '
     'be expanded in any order, between steps, after failures, and do not change. States are equal, with equal hashes, when they show the '
     'same. Planning domains end at their depth or at terminations. Discrete actions are all combinations of the values of the action space, each of them an action. '
     'Features of states have one length, binary ones tell states apart, boundary ones count records. A domain wrapped as a Gym environment '
     'gives observations of its observation space and takes actions of its action space. Wrapped spaces contain what they list, sample and '
     'restore from JSON or unwrapped form.',
     ['inputs', 'histories', 'fault_sequences'],
     'every environment, space, wrapper, history of resets, steps, expansions, copies and renderings, and failure of the environment',
     'Only tests of solvers which are not installed here wrap an environment; the example scripts use one environment in one order.',
     ['skdecide/hub/domain/gym/gym.py', 'skdecide/hub/space/gym/gym.py'],
     [('wrappers', 'skdecide/hub/domain/gym/gym.py: GymDomain, DeterministicInitializedGymDomain, DeterministicGymDomain, GymPlanningDomain, AsGymEnv'),
      ('features and actions', 'skdecide/hub/domain/gym/gym.py: GymWidthDomain, GymDiscreteActionDomain'),
      ('spaces', 'skdecide/hub/space/gym/gym.py')],
     observe=['observations, outcomes, equality, goals, actions, features and spaces, compared with a model of the simulated environment'],
     technique='deterministic simulation with fault injection: seeded histories over simulated environments with hidden state, changed in place, which fail before or after changing, compared with a reference model',
     note='Seeded search: finds violations, does not prove their absence. Environments have the interface the wrappers use (reset returns an observation, step '
          'four values). States given to set_memory are initial states, as the wrapper supports no others.')
prop('C39', 'Explored graphs are the domain they explore, policies are worth what they cost',
     'Exploring a deterministic or uncertain domain gives a graph domain with exactly the reachable states, transitions, probabilities, costs '
     'and goals of the domain; under limits on states, transitions or paths it stops at the first expansion which exceeds one, and what it has explored until then is exact. States are '
     'expanded in the order of their scores, without being compared themselves. Explorers can be used again, also after the domain failed. Graph '
     'domains answer as the explored domain does; merged ones have the transitions of both, which stay as they were. '
     'The expected cost of a policy is exact wherever the policy cannot come back to a state, and left out where it cannot be computed; '
     'estimates by rollouts are the averages of the rollouts that took place.',
     ['inputs', 'histories', 'fault_sequences'],
     'every domain (cycles, dead ends, successors of probability 0, equal hashes), limit, score, policy, history of explorations, merges and evaluations, failure of the domain and draw of the rollouts',
     'No test in the stable set explores a domain or evaluates a policy; the only test which does looks at one project with one order of states.',
     ['skdecide/hub/solver/graph_explorer/*.py', 'skdecide/hub/solver/policy_evaluators/policy_evaluator.py'],
     [('explorations', 'skdecide/hub/solver/graph_explorer/DFSExploration.py, DFS_Uncertain_Exploration.py, FullSpaceExploration.py: build_graph_domain'),
      ('graph domains', 'skdecide/hub/solver/graph_explorer/GraphDomain.py: GraphDomain, GraphDomainUncertain'),
      ('policies', 'skdecide/hub/solver/policy_evaluators/policy_evaluator.py: compute_expected_cost_for_policy, rollout_based_policy_estimation')],
     observe=['states, transitions, order of expansions and values, compared with a reference model of the domain; rollouts compared with the draws of the simulator'],
     technique='deterministic simulation with fault injection: seeded histories of explorations, merges and evaluations over simulated domains which fail on demand, chance drawn by the simulator, compared with a reference model',
     note='Seeded search: finds violations, does not prove their absence. The evaluation by rollouts of scheduling domains in place is not covered.')
prop('C40', 'Planners called from Python see the domain, the functions and the options given',
     'A*, AO*, ILAO*, LRTDP, IW, RIW, BFWS, MCTS and UCT hand the user\'s options and defaults to the planner under the names it knows, and let it '
     'see the domain being solved: goals, heuristics, features, policies and termination are those of the user\'s functions on that domain, also in parallel, '
     'where each is the right one and runs in the process the planner chose. Asking for an action plans from the state when nothing is known of it, or each time if planning '
     'is continuous, and gives the planner\'s action, or an action of the domain if there is none and the planner promises one. Reset, '
     'solving again, failures and with blocks leave no stale domain and no open processes; failures of the user\'s functions reach the user.',
     ['inputs', 'histories', 'fault_sequences', 'schedules'],
     'every wrapper, option, function, sequential or parallel domain, history of solves, questions, resets and with blocks, order of parallel jobs and failure',
     'The compiled extension is missing where the tests run, so no test imports a wrapper.',
     ['skdecide/hub/solver/{astar,aostar,ilaostar,lrtdp,iw,riw,bfws,mcts}/*.py', 'skdecide/builders/solver/parallelability.py'],
     [('wrappers', 'skdecide/hub/solver/*/*.py: _init_solve, _get_next_action, _reset'),
      ('parallel solvers', 'skdecide/builders/solver/parallelability.py: ParallelSolver'),
      ('bindings', 'cpp/src/hub/solver/py_*.cc: names of arguments and methods')],
     observe=['constructor arguments, calls and results at the boundary to the simulated extension module; open parallel domains'],
     technique='deterministic simulation with fault injection: seeded histories of wrappers over a simulated extension module and simulated parallel domains, with failing domains, functions and planners, compared with a reference model',
     note='Seeded search: finds violations, does not prove their absence. The planner is simulated; the C++ planners themselves are checked in C20 to C25, parallel domains in C01 to C08. '
          'Names of arguments and methods come from the sources of the bindings; if these cannot be read, they are not checked.')
prop('C41', 'Games of the hub follow their rules',
     'Mazes and grids: a move leads to the next cell if it is free and inside and else nowhere, at cost 1 and 2; start, goal, termination, observation space and '
     'picture are those of the text of the maze, also when it is open at its borders or lines leave out spaces at their end. MasterMind: the score of a guess counts pegs in the right place and, of the others, '
     'colours in common, each peg once; the secret code does not change and is any code with equal probability; all scores can be observed. Rock-paper-scissors: rewards add up to '
     'nothing and follow the rules, players observe each other, episodes have the number of moves asked for.',
     ['inputs', 'histories'],
     'every maze, size, number of colours and places, history of steps, resets and questions about other states',
     'No test plays the games of the hub; the examples play one maze and one size.',
     ['skdecide/hub/domain/maze/maze.py', 'skdecide/hub/domain/simple_grid_world/simple_grid_world.py', 'skdecide/hub/domain/mastermind/mastermind.py',
      'skdecide/hub/domain/rock_paper_scissors/rock_paper_scissors.py'],
     [('moves', 'skdecide/hub/domain/maze/maze.py: Maze._get_next_state'), ('scores', 'skdecide/hub/domain/mastermind/mastermind.py: MasterMind._calc_score'),
      ('rewards', 'skdecide/hub/domain/rock_paper_scissors/rock_paper_scissors.py: RockPaperScissors._state_step')],
     observe=['states, observations, costs, rewards, goals, spaces and pictures, compared with the rules'],
     technique='deterministic simulation: seeded histories of interleaved steps, resets and questions about other states on simulated games, compared with their rules; there is no I/O or concurrency in these domains, so no faults',
     note='Seeded search: finds violations, does not prove their absence. Pictures are compared as arrays, without a screen.')
prop('C42', 'Evolved programs and searched policies act, score and improve as they say',
     'A Cartesian genetic program computes what its genes say: each node applies its function to what its sources held one step before. Random, mutated, cloned and '
     'reloaded programs have valid genes, which only point to inputs and earlier columns, and any such gene can be drawn; they are printed and pictured as they are; a mutation changes no more than asked, and no other program. '
     'The fitness of a program is the reward of an episode played by it. In the evolution, on one processor or several, the father is replaced exactly when the best of its children is as good, '
     'and each new father is then on disk and in the log under its generation and fitness, whatever fails later; evolution can start from such a file. '
     'Random search explores in both directions around its policy, and moves it along the best directions as documented. '
     'All actions are in the action space, for bounded or unbounded boxes of any shape, discrete spaces and tuples of them.',
     ['inputs', 'histories', 'fault_sequences', 'schedules'],
     'every environment, space, function library, size, rate, history of mutations, copies, runs and solves, order of parallel evaluations and failure of the environment',
     'No test runs these solvers; the example looks at one environment with one observation and action space.',
     ['skdecide/hub/solver/cgp/cgp.py', 'skdecide/hub/solver/cgp/pycgp/cgp.py', 'skdecide/hub/solver/cgp/pycgp/cgpes.py', 'skdecide/hub/solver/cgp/pycgp/cgpfunctions.py',
      'skdecide/hub/solver/ars/ars.py'],
     [('programs', 'skdecide/hub/solver/cgp/pycgp/cgp.py: CGP'), ('evolution', 'skdecide/hub/solver/cgp/pycgp/cgpes.py: CGPES.run'),
      ('spaces and episodes', 'skdecide/hub/solver/cgp/cgp.py: norm_and_flatten, denorm, SkDecideEvaluator'), ('random search', 'skdecide/hub/solver/ars/ars.py: AugmentedRandomSearch')],
     observe=['outputs and genes of programs; episodes as the simulated environments see them; genome and log files; actions of the policies'],
     technique='deterministic simulation with fault injection: seeded histories over simulated environments which fail at any call, workers switched by a seeded scheduler, compared with reference programs and a reference search',
     note='Seeded search: finds violations, does not prove their absence. One episode per evaluation (the default); rewards are maximised; tuples inside tuples are not supported by the solvers.')

prop('C43', 'Benchmark files give the problems they describe; solutions survive their files',
     'A file in the published format of a knapsack, facility, coloring, travelling salesman, vehicle routing, travelling thief, PSPLIB (one or several modes) or IMOPSE multi-skill benchmark is read as '
     'exactly the instance it describes: numbers, resources and which of them are renewable, modes, precedences in whichever order its lines come, employees, skills and parameters, '
     'whatever its spacing and trailing newlines; the domain loaded from a project file agrees with it. A file torn before the end of its instance is refused, not read as another instance. '
     'Parsers can be imported where no example data is installed. The travelling thief model computes profit, distance, time, weight and objective of a tour with its packing as documented, in both of its evaluations, '
     'and copies of solutions are independent. A multi-skill solution written to a file has its hours in order, and comes back with the same starts, ends, employees and skills; of a torn file its whole lines come back.',
     ['inputs', 'fault_sequences'],
     'every shipped project file and every generated instance of each format, every spacing, order of lines and line at which a file is torn, every solution of such an instance',
     'No test reads any benchmark file; one that did would see the shipped files only, and no torn or differently written one.',
     [f'skdecide/builders/discrete_optimization/{f}' for f in ('knapsack/knapsack_parser.py', 'facility/facility_parser.py', 'coloring/coloring_parser.py', 'tsp/tsp_parser.py', 'vrp/vrp_parser.py',
      'ttp/ttp_parser.py', 'ttp/ttp_model.py', 'rcpsp/rcpsp_parser.py', 'rcpsp_multiskill/rcpsp_multiskill_parser.py')] + ['skdecide/hub/domain/rcpsp/rcpsp_sk_parser.py'],
     [('projects', 'skdecide/builders/discrete_optimization/rcpsp/rcpsp_parser.py: parse_psplib'),
      ('multi-skill projects and solutions', 'skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py: parse_imopse, write_solution, parse_results, recompute_solution'),
      ('domains', 'skdecide/hub/domain/rcpsp/rcpsp_sk_parser.py: load_domain'), ('travelling thief', 'skdecide/builders/discrete_optimization/ttp/ttp_model.py: evaluate, evaluate_with_details')],
     observe=['problems, domains and solutions as their public attributes show them; files as written'],
     technique='deterministic simulation with fault injection: seeded instances written to simulated benchmark files which are torn at any line, compared with the generated instance and a reference evaluation',
     note='Seeded search: finds violations, does not prove their absence. The TSPLIB, GECCO and XML variants of other sources are not read; travelling thief mutations are not covered.')

prop('C44', 'Solvers are compared by what their solutions are worth',
     'A comparator finds for each result storage a solution which is best in the objective asked for, in the sense of the storage; evaluates the best solution of each in every test problem as a solution of that problem; '
     'merges storages into exactly the solutions that no other dominates; and its pictures show the stored values under the right names. '
     'The robustness tool leaves out none of the projects when it splits them in training and test projects; its a-priori projects aggregate the training projects as named, and its a-posteriori models evaluate as named; '
     'whatever order its workers finish in, the result for each model and test project is whether the solution found for that model is feasible there, with its makespan and resource reserve. Given projects are not changed. '
     'A failing worker or evaluation fails the comparison, which can then be done again.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every set of storages of either sense, every set of similar projects, every order in which workers finish and every failing evaluation or worker',
     'No test compares solvers; those who do trust the numbers.',
     ['skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py', 'skdecide/builders/discrete_optimization/generic_tools/robustness/robustness_tool.py'],
     [('comparator', 'skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py: ResultComparator'),
      ('robustness', 'skdecide/builders/discrete_optimization/generic_tools/robustness/robustness_tool.py: RobustnessTool, solve_model')],
     observe=['values and pictures of the comparator; models, tags and results of the robustness tool'],
     technique='deterministic simulation with fault injection: a pool of workers whose order and failures are drawn from the seed, compared with the worth of each solution by a reference',
     note='Seeded search: finds violations, does not prove their absence. Histograms are not looked at; storages compared together have the same sense.')

"""source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py   (run by hand after an edit)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = 'numerous/engine/'
P = []
NOTE = ('Every assertion is decided by Z3 over all real values of the symbolic inputs within the stated bounds, by symbolically '
        'executing the real Python source in /repo at every run (path enumeration by the solver); counterexamples and one witness '
        'per scenario are replayed on the unpatched code.  Structures (systems, programs) are enumerated up to the bounds in '
        'DESIGN.md.  Trusts: real arithmetic in place of floating point, uninterpreted transcendental functions, the numpy '
        'stand-ins of vlib/symnp.py. ')


def prop(id, title, statement, over, qtext, why, files, mech, claimed=False, na=None, level='model_checking', note='', technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  claimed=claimed, na=na, level=level, note=note,
                  technique=technique or 'symbolic execution of the real Python source with Z3 (path-complete within bounds), counterexamples replayed'))


prop('C01', 'A model computes exactly what its equation methods say',
     'For every item, every evaluation of the model gives its derivatives and variables the values that its equation methods, read as ordinary Python over '
     'that item\'s own variables, assign to them: all assignments, operators, comparisons, conditional expressions, if/elif/else branches, calls of '
     'registered functions with their arguments, local variables, global variables and time. A statement that cannot be translated is refused when '
     'the model is built, never dropped or altered.',
     ['programs', 'inputs'], 'every equation program of the supported language, and every value of its variables and of time',
     'The tests evaluate a few dozen fixed equations at one set of numbers; every operator/branch/nesting combination and every side of each comparison is a different case.',
     [E + 'model/ast_parser/ast_visitor.py', E + 'model/ast_parser/parser_ast.py', E + 'model/ast_parser/equation_from_graph.py',
      E + 'model/graph_representation/lower_graph.py', E + 'model/lowering/equations_generator.py', E + 'model/lowering/ast_builder.py'],
     [('parsing of equation methods into a graph', E + 'model/ast_parser/ast_visitor.py'),
      ('generation of equation functions from the graph', E + 'model/ast_parser/equation_from_graph.py'),
      ('generation of the kernel', E + 'model/lowering/equations_generator.py')],
     claimed=True)

prop('C02', 'The native backend computes what the interpreted backend computes',
     'For every model, the generated native kernel and the generated interpreted kernel give the same derivatives and the same variables for the same states, '
     'variables and global variables, and variable reads and writes of either backend address the same variables. This holds for every evaluation in a row, '
     'with sums, conditionals and sets of items.',
     ['programs', 'inputs'], 'every model (equations, mappings, sets), all states, variables and times',
     'The tests run a few models once per backend with fixed numbers and compare with loose tolerances; most long-running tests only use the interpreted backend here.',
     [E + 'model/lowering/llvm_builder.py', E + 'model/lowering/ast_builder.py', E + 'model/lowering/equations_generator.py'],
     [('native kernel', E + 'model/lowering/llvm_builder.py'), ('interpreted kernel', E + 'model/lowering/ast_builder.py')],
     level='translation_validation', claimed=True,
     note='Both kernels of about 150 (thorough: more) models are executed: the interpreted one from its Python source, the native one instruction by instruction from the LLVM IR that '
          'the real builder emits (parsed and verified by the real llvmlite); equation functions from their generated source in both. Up to three evaluations in a row, reads and writes of variables in between. '
          'What numba and LLVM make of the IR is trusted.',
     technique='symbolic execution of the emitted LLVM IR and of the generated Python kernel, equality decided by Z3, counterexamples replayed on the compiled kernels')

prop('C03', 'Mapped variables always carry the value of what they are mapped to',
     'After every evaluation, a variable assigned from another variable has that variable\'s value, and a variable to which variables were added '
     '(with +=) has the sum of each of them, counted exactly once each time it was added, plus its own equation\'s value if it has one; this holds through chains of mappings, '
     'across items and subsystems, and for equations that read such variables in the same evaluation.',
     ['configurations', 'inputs'], 'every structure of assignments and sums between variables of items and subsystems, all values',
     'Tests check a handful of fixed wirings with one set of numbers; chains, fan-out, sums of sums and their registration order combine without limit.',
     [E + 'variables.py', E + 'model/model.py', E + 'model/graph_representation/mappings_graph.py', E + 'model/lowering/equations_generator.py'],
     [('collection of mappings', E + 'variables.py'), ('chain removal and assignments', E + 'model/graph_representation/mappings_graph.py')],
     claimed=True)

prop('C04', 'Items registered as a set behave like items registered one by one',
     'Registering items with the same equations as a set gives every variable and derivative of every item the same value as registering the items one by one, '
     'whatever the mappings and sums between the items of the set, other items and other sets; no item of the set reads or writes a variable of another item unless mapped to it.',
     ['configurations', 'inputs'], 'every set size, order of items and wiring of set members, all values',
     'The tests use one set with identical simple items and no mappings into it.',
     [E + 'system/subsystem.py', E + 'model/lowering/equations_generator.py', E + 'model/ast_parser/parser_ast.py', E + 'system/namespace.py'],
     [('set registration', E + 'system/subsystem.py'), ('set calls in the kernel', E + 'model/lowering/equations_generator.py')],
     claimed=True, note='Dependency cycles that only exist because the equations of a set run together are outside the bounds.')

prop('C05', 'Each derivative drives its own state',
     'The state vector lists every state exactly once, the derivative vector gives at each position the derivative of the state at that position, '
     'and writing a state vector changes exactly the states, so that reading it back gives the same vector; this holds for any number and order of items and variables.',
     ['configurations', 'inputs'], 'all declaration orders and mixes of states, parameters and constants over items, all values',
     'A permutation of the derivative vector is invisible in tests with one state or with symmetric items.',
     [E + 'model/lowering/equations_generator.py', E + 'model/compiled_model.py'],
     [('layout of states and derivatives', E + 'model/lowering/equations_generator.py'), ('state access', E + 'model/compiled_model.py')],
     claimed=True)

prop('C06', 'Reading and writing variables by name addresses exactly the named variable',
     'A write to one variable of a built model, by its fully qualified name or through the variable object, changes that variable and no other, and is seen by the next evaluation; '
     'reading by name or in bulk returns for each name the current value of that variable. Names that do not exist are refused.',
     ['configurations', 'inputs', 'histories'], 'every variable of every system, all values, all sequences of writes and reads',
     'Tests read or write one or two variables of small systems.',
     [E + 'model/model.py', E + 'variables.py', E + 'system/item_path.py'],
     [('aliases and addressing', E + 'model/model.py'), ('variable objects', E + 'variables.py')],
     claimed=True)

prop('C07', 'External data columns reach the right variables with the right values in time',
     'A variable connected to a column of external data has at each time the value of that column of that data frame at that time: linearly interpolated between samples '
     'or the last sample at or before that time, whichever was asked for that variable, with the time column multiplied by the given factor and data starting at the given row. '
     'All other variables are untouched, and equations evaluated at that time use these values.',
     ['configurations', 'inputs'], 'all mappings of columns to variables, all data values, all times within the data',
     'Tests use one or two columns of fixed data, with one interpolation type each.',
     [E + 'system/external_mappings/external_mappings.py', E + 'model/compiled_model.py', E + 'model/model.py'],
     [('column addressing', E + 'system/external_mappings/external_mappings.py'), ('interpolation', E + 'model/compiled_model.py')],
     claimed=True, note='Data is loaded as a whole (in memory); loading in parts is C08. Times at a sample or at least 1e-7 away from one.')

prop('C08', 'Chunked data loading never loses or repeats samples',
     'Whatever the chunk size, loading external data from a CSV file in chunks gives at every requested time, moving forwards or backwards, data that covers this time as far as the file does '
     'and agrees with the file read as a whole, so that interpolated values are the same as with unchunked loading.',
     ['inputs', 'histories'], 'all chunk sizes, file lengths, sequences of requested times',
     'Tests load one file with one chunk size and increasing times.',
     ['numerous/utils/data_loader.py', E + 'simulation/solver_interface.py', E + 'model/compiled_model.py'],
     [('chunk selection', 'numerous/utils/data_loader.py'), ('reload signal', E + 'simulation/solver_interface.py')],
     claimed=True, note='The text of the file is read by pandas; sample times are concrete, requested times are at a sample or at least 1e-7 away from one.')

prop('C09', 'The history records every stored instant with the values at that instant',
     'The recorded history contains, in order, one row for every time at which results are stored, each with that time and the values all logged variables had then, under their fully qualified names; '
     'variables below the chosen logging level do not appear. Filling the history buffer, flushing it to file and starting the next part loses, repeats or overwrites no row.',
     ['histories', 'configurations', 'inputs'], 'all sequences of stored instants and buffer sizes, all log levels, all values',
     'Tests compare a few columns of short runs.',
     [E + 'model/model.py', E + 'model/compiled_model.py', 'numerous/utils/historian.py', E + 'simulation/solver_interface.py', E + 'model/aliased_dataframe.py'],
     [('history buffer', E + 'model/compiled_model.py'), ('historian', 'numerous/utils/historian.py'), ('data frame with aliases', E + 'model/aliased_dataframe.py')],
     claimed=True, note='Runs of the external solver loop with an arbitrary trajectory in place of the integration method; user aliases (alias=) have no effect in this version and are not covered.')

prop('C10', 'Event actions change exactly the variables they name',
     'When an event fires, its action sees the current values of all variables and the event time, and afterwards exactly the variables it assigned have the assigned values, '
     'states and parameters alike, while every other variable keeps its value; the action of another event is not run. This holds for compiled and external actions, on the model or on items, for state events and time events.',
     ['configurations', 'inputs'], 'all event actions over a system\'s variables, all values, any number of events',
     'Tests have one or two events that change one state or one parameter each.',
     [E + 'model/events.py', E + 'simulation/solver_interface.py', E + 'model/model.py', E + 'numerous_event.py'],
     [('event code generation', E + 'model/events.py'), ('running event actions', E + 'simulation/solver_interface.py')],
     claimed=True, note='Events are dispatched by the interpreted code of the external solver package at arbitrary times and states; locating the event in time is outside.')

prop('C11', 'Event conditions are evaluated on the named variables, without side effects',
     'The condition function of each event, evaluated at a trial state and time, gives the value of the user\'s condition with the states taken from that trial state and all other variables at their current values, '
     'with the direction given for that event; evaluating it leaves all variables of the model as they were. A name refers to the variable at that path (relative to the item for item events) and to no other; unknown names are refused.',
     ['configurations', 'inputs'], 'all conditions over the variables of a system, all trial states, any number of events',
     'Tests have one or two events with one condition each.',
     [E + 'model/events.py', E + 'simulation/solver_interface.py'],
     [('condition code generation', E + 'model/events.py'), ('trial evaluation', E + 'simulation/solver_interface.py')],
     claimed=True)

prop('C12', 'The solver pauses exactly when history or external data must be exchanged',
     'After every step the solver is told to pause for storing the history exactly if the history buffer is full, and for loading external data exactly if the current time lies outside the loaded data, '
     'and for both if both hold; the exchange empties the buffer after its rows have been kept and replaces the loaded data by data for the current time; a time beyond all data is refused.',
     ['inputs', 'histories'], 'all fill levels, buffer sizes, times, data windows',
     'Tests reach only the combinations that occur in their fixed runs.',
     [E + 'simulation/solver_interface.py', E + 'model/compiled_model.py'],
     [('signals to the solver', E + 'simulation/solver_interface.py')],
     claimed=True, note='Buffer sizes, fill levels and sample times are enumerated, times of steps are arbitrary (at a sample or at least 1e-7 away from one).')

prop('C13', 'Reset returns the model to its initial state',
     'After a reset, whatever was simulated, written or triggered before, every variable has its initial value (or the value external data gives it at the start time), the history is empty, and the next run '
     'gives the same results as a run of a newly built model.',
     ['histories', 'inputs'], 'all histories before the reset, all initial values',
     'Tests reset after one run and compare a few values.',
     [E + 'model/model.py', E + 'simulation/simulation.py', E + 'model/compiled_model.py'],
     [('reset', E + 'simulation/simulation.py'), ('initial values', E + 'model/model.py')],
     claimed=True, note='Histories of at most four operations before the reset; results which a local file received before the reset stay in it.')

prop('C14', 'Models are independent of each other',
     'Building, evaluating, writing to or simulating one model never changes the variables, equations, history, events or results of another model in the same process, even if both are built from the same classes and their use is interleaved.',
     ['histories', 'configurations', 'inputs'], 'all interleavings of building and using two models, all values',
     'Every test uses one model at a time.',
     [E + 'model/model.py', E + 'model/compiled_model.py', E + 'model/lowering/ast_builder.py', E + 'model/lowering/llvm_initializer.py'],
     [('compiled model class', E + 'model/model.py')],
     claimed=True, note='Two models from separate system objects, interleavings of up to eight operations each; the interpreted backend.')

prop('C15', 'Equations are evaluated in dependency order',
     'Within one evaluation every equation reads the values that other equations produce in that same evaluation, whatever the order in which items, equations and mappings were declared; '
     'no equation is dropped or evaluated twice because of that order. This is for systems whose equations do not depend on each other in a cycle.',
     ['configurations', 'inputs'], 'all dependency graphs up to the bounds, all declaration orders, all values',
     'Tests use a few fixed orders; the number of orders and graphs is unbounded.',
     [E + 'model/graph_representation/graph.py', E + 'model/lowering/equations_generator.py'],
     [('topological sort', E + 'model/graph_representation/graph.py')],
     claimed=True, note='All acyclic graphs of up to three (thorough: four) items, all registration orders of four items; longer chains, trees and sums by sampling of the structure.')

prop('C16', 'Bilinear table lookup is exact at the nodes and bounded by the cell',
     'The bilinear interpolation of a table gives the tabulated value at every grid point, is linear along each axis inside a cell and agrees on the edge between neighbouring cells, for any increasing axes of equal spacing; '
     'it never reads outside the table, and an argument outside an axis has the value at the nearer end of that axis, on each side.',
     ['inputs'], 'all tables and axes up to the size bound, all points',
     'The tests compare a few points of one table.',
     ['numerous/utils/interpolation/bilinear_interpolation.py'],
     [('bilinear interpolation', 'numerous/utils/interpolation/bilinear_interpolation.py')],
     claimed=True, note='Tables of 1-5 by 1-5 nodes between other tables; the rounding of the computed position is modelled by a symbolic deviation of the nodes.')

prop('C17', 'Every variable has a unique qualified name that follows the item hierarchy',
     'In a built model every variable has a fully qualified name consisting of the tags of the subsystems and items that contain it, its namespace and its tag; different variables have different names, and none is missing, '
     'whatever the nesting depth, registration order, and use of the same classes in several places.',
     ['configurations'], 'all hierarchies up to the bounds',
     'Tests look at single names in hierarchies of depth two or three.',
     [E + 'system/subsystem.py', E + 'system/item_path.py', E + 'variables.py', E + 'model/model.py'],
     [('paths', E + 'system/subsystem.py')],
     claimed=True, note='Hierarchies of bounded depth and width built in every registration order of the scenarios, the value behind every name symbolic (a name must reach its own variable).')

prop('C19', 'Time events reach the solver with exactly the given times or period',
     'A time event is handed to the solver with exactly the timestamps or the period and the action it was declared with, in any of the accepted forms, and fires its own action and no other; a declaration with both or neither is refused.',
     ['configurations', 'inputs'], 'all accepted forms of timestamps and periods, any number of events',
     'Tests use one time event with a short list or one period.',
     [E + 'numerous_event.py', E + 'simulation/solver_interface.py', E + 'model/model.py'],
     [('time event declaration', E + 'numerous_event.py'), ('event factory', E + 'simulation/solver_interface.py')],
     claimed=True, note='Up to three time events with up to three arbitrary timestamps or an arbitrary period, on items, subsystems and the model; up to four firings, with rounding errors of the reached times, resets and starts after 0.')

prop('C20', 'Connectors exchange values with exactly the items bound to their sides',
     'A connector bound to items reads from and adds to the variables of exactly the items bound to each side, so that with any number of connectors on the same items each item receives the sum of all contributions; a connector that reads from a side that is not bound, names a side it does not have, or is bound to an item without the variables it uses, is refused.',
     ['configurations', 'inputs'], 'all networks of items and connectors up to the bounds, all values',
     'Tests use one chain with fixed numbers.',
     [E + 'system/connector.py', E + 'system/binding.py', E + 'system/connector_item.py', E + 'variables.py'],
     [('binding', E + 'system/connector.py')],
     claimed=True, note='Networks of up to 5 items and 5 connectors of all kinds of connectors, sets, nested subsystems, orders of binding and registration; all values arbitrary.')

prop('C21', 'The helper derivatives for implicit solvers are those of the model',
     'The numerical Jacobian of the model has, for every pair, the change of that derivative with that state divided by the perturbation, and the implicit residual helper returns the stated combination of states, history and derivative, and '
     'afterwards the model is at the states it was called with and later evaluations are unaffected.',
     ['inputs', 'configurations'], 'all models within the bounds, all states',
     'Tests only use implicit solvers on a few systems and look at end results.',
     [E + 'model/compiled_model.py'],
     [('jacobian and residual', E + 'model/compiled_model.py')],
     claimed=True, note='Systems of 3-5 items with up to ten states, orders 1-3, all values arbitrary; exact arithmetic.')

prop('C22', 'Cloned and re-loaded models compute what the original computes',
     'A clone of a model, or a model loaded from an exported file, gives the same derivatives and variables as the original for the same states, has the same names, and can be reset; using it does not change the original.',
     ['programs', 'inputs', 'histories'], 'all models, all values',
     'Tests clone one model and compare end results.',
     [E + 'model/model.py'],
     [('clone and export', E + 'model/model.py')],
     claimed=True, note='Models of items, sets, sums, events and global variables on the native backend (LLVM IR executed symbolically), clones, clones of clones and re-loaded files; all values arbitrary.')

NA = 'check not built yet'


def main():
    props = []
    for p in P:
        props.append({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')})
    open(os.path.join(HERE, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in props))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup_check.py', checks=[], not_applicable=[],
             notes='see DESIGN.md; every check is: python run.py <ID>, tier from VERIF_TIER')
    for p in P:
        if p['claimed']:
            m['checks'].append(dict(property=p['id'], quick_cmd='/opt/venv/bin/python run.py %s' % p['id'],
                                    thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python run.py %s' % p['id'],
                                    technique=p['technique'], level=p['level'], level_note=NOTE + p['note']))
        else:
            m['not_applicable'].append(dict(property=p['id'], reason=p['na'] or NA))
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    for p in P:
        assert len(p['title']) <= 80, p['id']


main()

"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files,
             mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    return d


PROPS = [
P('C01', 'The structure matrix keeps its port-Hamiltonian form',
  'The interconnection matrix of a system always splits into a skew-symmetric conservative part J and a symmetric resistive part R with M = J - R; reading a block returns that block, and writing any block of M, J or R sets exactly that block (and, for J and R, its transposed counterpart with the appropriate sign) and leaves every other entry and the other part unchanged. '
  'Along the system equations b = M a, stored power plus dissipated power plus port power is zero.',
  ['inputs', 'histories'], 'all values of the matrix entries, of the written block, of gradients, dissipations and inputs; every pair of blocks, including the linear/nonlinear sub-blocks; systems up to the stated dimensions',
  'The tests call a few mutators with one constant matrix each and never look at the untouched entries or at the power balance.',
  ['pyphs/core/core.py', 'pyphs/core/structure/dimensions.py', 'pyphs/core/structure/indices.py'],
  [('block accessors and mutators', 'Core._build_get_mat, Core._build_set_mat'), ('J, R, pd, a, b', 'pyphs/core/core.py')]),
P('C02', 'Gradient discretisations satisfy their defining identities',
  'For any storage function, the discrete gradient between a state and its increment satisfies the discrete chain rule exactly (sum of gradient times increment equals the variation of energy) as soon as the increment exceeds the tolerance, is defined for every increment including zero, and equals the ordinary gradient at zero increment. '
  'The theta-scheme gradient is the gradient evaluated at state + theta*increment and the trapezoidal one is the mean of the gradients at both ends.',
  ['inputs', 'configurations'], 'all storage functions (undefined functions, polynomials with symbolic coefficients, transcendental samples), all states, increments, tolerances and theta',
  'Tests run two fixed circuits for a few samples; the identity must hold for all energies, states and increments, including the switching band around zero.',
  ['pyphs/numerics/numerical_method/_discrete_calculus.py', 'pyphs/core/maths/_calculus.py'],
  [('discrete gradients', '_discrete_calculus.py'), ('symbolic gradient', '_calculus.py')]),
P('C03', 'The numerical method is energy consistent in every configuration',
  'For every admissible configuration (gradient rule, theta, linear/nonlinear splitting), the discretised system evaluates the structure matrix and the dissipation laws at the point the configuration prescribes and its gradient by the prescribed rule; its update and output equations are exactly M a with these values, so that with the discrete gradient, energy variation per step plus dissipated power plus port power is zero. '
  'Splitting and reordering of variables change neither the equations nor the original system.',
  ['inputs', 'configurations', 'programs'], 'all states, increments, dissipation variables, inputs, parameters and sample rates; all combinations of gradient rule, theta and splitting; a family of cores (linear coupled, separable and coupled nonlinear energies, state-dependent structure, observers, parameters)',
  'The tests execute one linear circuit and one small nonlinear one with five configurations and only check that the run terminates.',
  ['pyphs/numerics/numerical_method/_method.py', 'pyphs/numerics/numerical_method/_discrete_calculus.py', 'pyphs/core/structure/splits.py'],
  [('gradient and structure evaluation, splitting', 'pyphs/numerics/numerical_method/_method.py')]),
P('C04', 'Each simulation step solves the equations of the scheme',
  'One step of the Python simulation engine from any state with any input and parameters leaves the state, increment, dissipation variables, gradients and outputs in exact agreement with the scheme: linear systems satisfy the discrete equations exactly, and for nonlinear ones the linear part is solved exactly for the current nonlinear unknowns, each iteration is a Newton step, the engine stops as soon as residual or step is below the tolerance or the iteration bound is reached. '
  'The stored state advances by exactly the solved increment.',
  ['inputs', 'histories', 'configurations'], 'all states, inputs and parameter values at which the linear systems are invertible; one step from an arbitrary state (inductive), and short sequences',
  'Tests simulate two fixed circuits for fixed inputs and do not compare the result to the scheme.',
  ['pyphs/numerics/numerical_core/_numerical_core.py', 'pyphs/numerics/numerical_method/_method.py', 'pyphs/numerics/tools/_lambdify.py'],
  [('execution of update actions', 'pyphs/numerics/numerical_core/_numerical_core.py')]),
P('C05', 'Sorting and splitting of components only relabels the system',
  'Moving a storage, dissipation or port, and the linear/nonlinear and separable/non-separable splits, permute the components without changing the equations: every variable keeps its law and its coupling with every other variable, and nothing is lost or duplicated. '
  'Components reported as linear have the quadratic (resp. linear) law given by the reported coefficient matrices, and storages reported separable share no energy term with any other.',
  ['inputs', 'programs'], 'all moves (i, j), all structure matrices with symbolic entries, a family of storage and dissipation laws, up to the stated dimensions',
  'Tests never compare the equations before and after a permutation.',
  ['pyphs/core/structure/moves.py', 'pyphs/core/structure/splits.py', 'pyphs/misc/tools.py'],
  [('moves', 'pyphs/core/structure/moves.py'), ('splits', 'pyphs/core/structure/splits.py')]),
P('C06', 'Reduction of linear dissipations preserves the behaviour',
  'Absorbing the linear dissipative components into the structure yields a system whose state derivative, remaining dissipation variables and outputs are, for every state and input, those of the original system, and whose dissipated power equals the original one. '
  'Dissipations excluded from the reduction are kept with their law.',
  ['inputs', 'programs'], 'all structure matrices (symbolic entries), dissipation coefficients, states and inputs where the reduction is well posed; mixtures of linear, nonlinear and excluded dissipations',
  'Tests only call the reduction on one circuit and check nothing about the result.',
  ['pyphs/core/structure/R.py', 'pyphs/core/structure/splits.py'],
  [('reduce_z', 'pyphs/core/structure')]),
P('C07', 'Connecting ports imposes the connection law and conserves power',
  'After two ports of a system are connected with coefficient alpha, the resulting system is exactly the original one constrained by u0 = -alpha*y1 and u1 = alpha*y0 for every state and remaining input, so that the connection neither stores nor dissipates power. '
  'This holds for any number of connections whatever the order in which they are declared.',
  ['inputs', 'programs', 'histories'], 'all structure matrices (symbolic), alphas, states and inputs for which the connection is well posed; up to two connections in any port order',
  'Tests connect ports in one example and check nothing about the law.',
  ['pyphs/core/core.py', 'pyphs/core/structure/connectors.py'],
  [('add_connector, connect', 'pyphs/core/core.py')]),
P('C08', 'Sums, copies and saved systems are faithful and independent',
  'The sum of two systems behaves as the two systems side by side; a copy, and a system saved and loaded back, have the same equations, parameters, observers and dimensions as the original; and no later change to a copy or a sum alters its sources or conversely.',
  ['inputs', 'programs', 'histories'], 'all values of symbolic entries; families of cores with split dimensions, connectors, observers, substitutions',
  'Tests add and copy one core and compare nothing.',
  ['pyphs/core/core.py', 'pyphs/misc/tools.py'],
  [('__add__, __copy__, save, load', 'pyphs/core/core.py')]),
P('C09', 'Substitution and simplification preserve the value of every expression',
  'Substituting parameters, replacing inverses of parameters, and simplifying a system never change the value of its energy, gradient, dissipation laws, structure or observers at any point once the substituted parameters are given their values; substitutions defined in terms of other parameters are resolved to the same values whatever their order. '
  'The caller\'s own dictionaries are not modified.',
  ['inputs', 'programs'], 'all values of symbols; families of expressions and chained substitution dictionaries',
  'Tests call these functions on one core and only check that they return.',
  ['pyphs/core/tools/_substitutions.py', 'pyphs/core/tools/_subsinverse.py', 'pyphs/core/tools/_simplify.py'],
  [('substitute_core, subsinverse_core, simplify_core', 'pyphs/core/tools')]),
P('C10', 'The system derived from a graph is the circuit of that graph',
  'For every realizable circuit, the system derived from its graph has exactly the solutions of Kirchhoff\'s node and loop laws together with the constitutive law of each component: any solution of the derived equations satisfies the circuit laws and conversely, whatever the order of components, orientation or node names, and whether or not series/parallel components are merged. '
  'Deriving the system twice from the same graph gives the same equations.',
  ['inputs', 'programs', 'histories'], 'all values of states, inputs and parameters; all topologies of a generated family (series, parallel, bridges, transformers, gyrators, both control types)',
  'Tests build a handful of example circuits without comparing the equations to the circuit.',
  ['pyphs/graphs/graph.py', 'pyphs/graphs/analysis.py', 'pyphs/graphs/realizability/realizability.py', 'pyphs/graphs/subgraph.py'],
  [('graph analysis', 'pyphs/graphs/analysis.py'), ('build of the core', 'pyphs/graphs/graph.py')]),
P('C11', 'Dictionary components obey their laws and are passive',
  'Each component of the dictionary contributes the energy or dissipation law documented for it, with its parameters in the documented role; storages have non-negative energy that is minimal at rest (the exponential energy of a thermal capacity excepted), dissipative components never produce power (the triode: for a positive plate voltage), conservative couplers neither store nor dissipate, and the effort- and flux-controlled forms of a component describe the same law.',
  ['inputs', 'programs'], 'all component parameters in their admissible range and all variable values, component by component',
  'Tests import the dictionary and simulate a few components with default parameters.',
  ['pyphs/dictionary'],
  [('component classes', 'pyphs/dictionary')]),
P('C12', 'Generated C++ code computes the same step as the method',
  'The C++ code generated for a numerical method, for any configuration, initial state, inputs and parameters, computes at each update the same increment, state, dissipation variables, gradients and outputs as the equations of the method, and its accessors expose each component under its own name and index.',
  ['inputs', 'programs', 'configurations'], 'all values of state, inputs, parameters, initial values and sample rate, for a family of cores and configurations; one update from an arbitrary state',
  'Tests compile the generated code for one circuit with one configuration when a compiler is configured and do not compare results.',
  ['pyphs/numerics/cpp'],
  [('code generation', 'pyphs/numerics/cpp/method2cpp.py')]),
P('C13', 'Numerical evaluation returns the value of the symbolic expressions',
  'Evaluating any quantity of a system numerically (lambdify, Evaluation) returns the value of the corresponding symbolic expression at the arguments given, whatever the order and number of variables, with parameters replaced by their values, in both scalar and vectorised form; gradient, jacobian and hessian are the true derivatives.',
  ['inputs', 'programs'], 'all argument values; all quantities of a family of cores; vectors of bounded length',
  'Tests evaluate one core on a few points.',
  ['pyphs/numerics/tools/_lambdify.py', 'pyphs/numerics/tools/_evaluation.py', 'pyphs/core/maths/_calculus.py'],
  [('lambdify, Evaluation', 'pyphs/numerics/tools')]),
P('C14', 'Recorded simulation data are returned exactly as computed',
  'The data of a simulation read back through any start time, end time and decimation are exactly the recorded samples of that window, in order and aligned with their times; derived power quantities equal their definition on the recorded values and are consistent with the power balance.',
  ['inputs', 'histories', 'configurations'], 'all start/end times, decimation factors and lengths within the bounds; all sample values; chunk sizes',
  'Tests read a single run with default window.',
  ['pyphs/numerics/simulations/h5data/h5data.py', 'pyphs/numerics/simulations/simulation.py'],
  [('H5Data', 'pyphs/numerics/simulations/h5data/h5data.py')]),
P('C15', 'Netlists round-trip',
  'A netlist written to a file and read back, or converted line by line, describes the same components with the same nodes and parameters in the same order, and rejects nothing it can write, as long as names are free of the separators of the line format (no space or ":" in labels, no ":", quote or backslash in nodes, no separator in parameters) and labels of parameters do not read as Python literals.',
  ['inputs', 'programs'], 'all labels, nodes and parameter values of the supported forms',
  'Tests write and read one netlist.',
  ['pyphs/graphs/netlists.py'],
  [('Netlist', 'pyphs/graphs/netlists.py')]),
P('C16', 'Signals and wave files hold the documented values',
  'A generated signal has the requested duration (to one sample), number of cycles, silences, duty cycle, envelope, ramp, amplitude, frequency and offset; its noise stays within its amplitude. A signal written to a wave file and read back, at the same rate, is the signal within one quantum of the 16 bits samples.',
  ['inputs', 'configurations'], 'all parameter values within bounds',
  'Tests generate each signal once with default parameters and check that it returns.',
  ['pyphs/misc/signals/synthesis', 'pyphs/misc/signals/waves.py', 'pyphs/misc/signals/processing.py'],
  [('wavwrite, wavread', 'pyphs/misc/signals/waves.py'), ('signalgenerator', 'pyphs/misc/signals/synthesis')]),
P('C17', 'Piecewise-linear laws interpolate their data',
  'The piecewise-linear law built from a table of points that contains the origin passes through every point, is affine between consecutive points and continues the end slopes outside; its integrated form has that law as derivative and its energy is continuous; the piecewise-linear components use it with their documented parameters, and refuse tables that are not passive.',
  ['inputs'], 'all tables of up to 4 points (6 in thorough) with increasing abscissae (symbolic), all evaluation points',
  'Tests use one fixed table.',
  ['pyphs/dictionary/pwl'],
  [('pwl_func', 'pyphs/dictionary/pwl')]),
]

TECH = {}
NA = {
    'C12': 'the generated C++ is a class over Eigen and double with file logging: executing it symbolically needs a '
           'symbolic scalar through the kernels of Eigen, and no C++ front end available here (cbmc included) parses Eigen; '
           'not brought within reach. The equations the generator starts from are decided in C03 and C04.'}
LEVEL_NOTE = 'bounded symbolic execution of the real code + SMT (z3): verdict for all real values within the stated sizes; see DESIGN.md'


def main():
    checks, na = [], []
    for p in PROPS:
        pid = p['id']
        if os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
            checks.append(dict(property=pid, quick_cmd='./check %s quick' % pid,
                               thorough_cmd='./check %s thorough' % pid,
                               technique=TECH.get(pid, 'symbolic execution of the real code, SMT (z3)'),
                               level='other', level_note=LEVEL_NOTE))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, 'check not built yet')))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    man = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()

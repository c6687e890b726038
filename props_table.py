"""Properties (source of properties.jsonl and MANIFEST.json, see mk.py)."""
CFG, INP, HIST = 'configurations', 'inputs', 'histories'
B = 'src/tespy/'

PROPS = [
 dict(id='J01', title='Component equations are differentiated correctly',
  statement='For every component of the library, every equation it imposes and every variable of the system, the '
  'sensitivity the solver uses equals the partial derivative of that equation, at every state inside the valid '
  'property range. This holds for mandatory equations, for every optional specification, for characteristic based '
  'specifications and for parameters declared as variables, also after earlier evaluations at other states.',
  over=[INP, CFG], text='all mass flows, pressures, enthalpies, compositions and parameter values within the '
  'stated bounds; all component types and each of their specifications',
  why='a wrong entry still converges (slowly, or from the sampled starting values only); tests only look at a few converged results',
  files=[B + 'components/', B + 'tools/helpers.py'],
  mechanism=[('residual and Jacobian of component equations', B + 'components/component.py:Component.solve'),
             ('analytic derivatives', B + 'components/*/*.py:*_deriv')]),
 dict(id='J02', title='Connection specifications and references are differentiated correctly',
  statement='For temperature, vapour quality, boiling point distance, volumetric flow, composition balance and '
  'referenced mass flow, pressure, enthalpy, temperature and volumetric flow specifications, the sensitivity the solver uses equals the '
  'derivative of the specified equation with respect to every variable. This also holds when the referring and the '
  'referenced connection share variables and for pure fluids as well as mixtures.',
  over=[INP, CFG], text='all states, compositions, reference factors and offsets within the bounds; every kind of specification',
  why='a wrong sensitivity is hidden by the iteration in the handful of configurations the tests solve',
  files=[B + 'connections/connection.py', B + 'tools/fluid_properties/functions.py'],
  mechanism=[('equations of specified properties', B + 'connections/connection.py:Connection.solve')]),
 dict(id='J03', title='Bus totals, efficiencies and sensitivities are consistent',
  statement='A bus total always equals the sum of the bus values of its components, and the bus value of a '
  'component follows from its energy flow and the efficiency characteristic at its load in the direction given by '
  'its base. The equation of a bus with specified total demands exactly that sum, its sensitivities are the '
  'derivatives of that equation, and the reported results show the same values.',
  over=[INP, CFG], text='all states, reference loads (unset, positive, negative), characteristics and bus totals; all '
  'components that offer a bus value; up to three components on two busses',
  why='tests use a few networks at or near the reference load where most mistakes cancel',
  files=[B + 'connections/bus.py', B + 'components/component.py', B + 'networks/network.py'],
  mechanism=[('bus value and efficiency', B + 'components/component.py:Component.calc_bus_value'),
             ('bus equation', B + 'networks/network.py:Network.solve_busses'),
             ('bus results', B + 'networks/network.py:Network.process_busses')]),
 dict(id='C01', title='Mass is conserved',
  statement='In every state that satisfies the equations of the network, the mass flow entering each component equals '
  'the mass flow leaving it, per flow path for components with separated paths and in total for nodes, phase separators and '
  'reactors. The same holds for the network as a whole between its sources and sinks.',
  over=[INP, CFG], text='all states that satisfy the equations; every component type, nodes with two and three ports, several networks',
  why='tests compare balances at a few solved operating points of a few component arrangements',
  files=[B + 'components/', B + 'networks/network.py'],
  mechanism=[('shared mass flow of pass-through components', B + 'networks/network.py:Network.propagate_massflow / create_massflow_and_fluid_branches'),
             ('mass balances', B + 'components/*/*.py:mass_flow_func')]),
 dict(id='C02', title='Species and chemical elements are conserved',
  statement='In every state that satisfies the equations of the network, each species entering a non-reacting component leaves it in the same '
  'amount, splitting does not change the composition, and mixing conserves every species. Combustion, the fuel '
  'cell and the water electrolyzer conserve every chemical element, lean and rich, and inert species pass unchanged.',
  over=[INP, CFG], text='all states and compositions that satisfy the equations; up to three fuels on both inlets of combustion',
  why='the stoichiometric bookkeeping has many branches (fuel mixtures, air excess, fuel in both streams) of which tests sample few',
  files=[B + 'components/combustion/', B + 'components/nodes/', B + 'components/reactors/'],
  mechanism=[('stoichiometry', B + 'components/combustion/base.py:CombustionChamber.stoichiometry'),
             ('species balances', B + 'components/nodes/base.py / merge.py / separator.py:fluid_func'),
             ('reactor balances', B + 'components/reactors/*.py:reactor_mass_flow_func')]),
 dict(id='C03', title='Energy is conserved and reported power and heat close the balance',
  statement='In every state that satisfies the equations of the network, the enthalpy flows entering and leaving a component differ exactly by '
  'the power or heat the component reports, or by nothing for adiabatic components; the reported heat of a heat exchanger is '
  'the heat given off by one side and taken up by the other. For combustion and the electrolyzer the balance closes with the heat of reaction '
  'relative to the reference state, the reported thermal input, heat and losses.',
  over=[INP, CFG], text='all states that satisfy the equations; every component except the composition separator; several networks',
  why='tests verify the first law at a handful of operating points and mostly for a whole network after convergence',
  files=[B + 'components/'],
  mechanism=[('energy balances', B + 'components/*/*.py:energy_balance_func'),
             ('reported power and heat', B + 'components/*/*.py:calc_parameters')]),
 dict(id='C04', title='Nodes, phase separators and reactors couple states as documented',
  statement='In every state that satisfies the equations of the network, all ports of merges, splitters, separators, drums and combustion chambers have '
  'one pressure, split streams keep their enthalpy (or temperature behind a composition separator), and valves and interfaces do not change enthalpy. Outlets '
  'documented as saturated (drum, droplet separator, condenser, desuperheater) are exactly on the respective saturation line.',
  over=[INP, CFG], text='all states that satisfy the equations; nodes with two and three ports; several networks',
  why='tests look at single solved examples of each component',
  files=[B + 'components/nodes/', B + 'components/heat_exchangers/', B + 'components/reactors/', B + 'components/combustion/'],
  mechanism=[('pressure coupling', B + 'components/component.py:Component.pressure_equality_func'),
             ('saturated outlets', B + 'components/nodes/droplet_separator.py, drum.py; heat_exchangers/condenser.py, desuperheater.py')]),
 dict(id='R01', title='A specified component parameter is the reported result',
  statement='Whenever a numeric component parameter that imposes an equation is specified and the equations of the network are satisfied, the '
  'value the component reports after the calculation equals the specified value. This holds for every component, every such parameter and every '
  'physically meaningful state.',
  over=[INP, CFG], text='all states satisfying the equations and all parameter values in range; every numeric parameter with an equation, one at a time',
  why='specification and report are separate formulas, equal only if both implement the definition; tests compare them for a few values',
  files=[B + 'components/'],
  mechanism=[('equations of parameters', B + 'components/*/*.py:*_func'), ('reported results', B + 'components/*/*.py:calc_parameters')]),
 dict(id='R03', title='Off-design and grouped specifications impose the documented model',
  statement='Whenever a characteristic based or grouped specification of a component is active, every state that satisfies the equations satisfies '
  'the documented model: heat transfer coefficients and efficiencies scaled by the characteristic at the part load, pressure drop '
  'by the pipe friction laws, the cone law, collector energy balances, pump, valve, compressor map and engine characteristics. '
  'The pressure drop of the friction laws follows the direction of flow.',
  over=[INP, CFG], text='all states that satisfy the equations, all design values, all characteristics; every such specification of the component library',
  why='tests solve a few off-design points, most of them near the design point, where scaling mistakes cancel',
  files=[B + 'components/'],
  mechanism=[('characteristic based equations', B + 'components/*/*.py:*_char_func'), ('grouped equations', B + 'components/heat_exchangers/simple.py, solar_collector.py, parabolic_trough.py, piping/pipe.py')]),
 dict(id='R04', title='Reported component results follow their definitions',
  statement='After a calculation, every performance figure a component reports (pressure ratios, efficiencies, heat and power, '
  'terminal temperature differences, heat transfer coefficients, effectiveness, geometry independent friction values) equals its documented definition in terms of '
  'the connection states, for every state including reversed and vanishing flow. Where the definition has no value, '
  'the report shows nan or the documented fallback instead of failing.',
  over=[INP, CFG], text='arbitrary (not only converged) states of the attached connections; every component that reports results',
  why='tests compare the reported values of a few solved networks',
  files=[B + 'components/'],
  mechanism=[('reported results', B + 'components/*/*.py:calc_parameters')]),
 dict(id='R02', title='A specified connection property is the reported result',
  statement='Whenever mass flow, pressure, enthalpy, temperature, vapour quality, boiling point distance, volumetric flow, composition or a reference '
  'to another connection is specified, in any supported unit, the results table of a calculation whose equations are satisfied shows the specified value in the '
  'selected unit. All other reported properties of the connection are those of the state given by its pressure, enthalpy and composition, converted to the selected units.',
  over=[INP, CFG], text='all user values; every combination of specifications the state of a connection allows; every unit of every property; pure fluids and mixtures',
  why='tests use few units and few combinations; a wrong offset or a skipped conversion only shows in one of them',
  files=[B + 'connections/connection.py', B + 'networks/network.py', B + 'tools/fluid_properties/helpers.py', B + 'tools/global_vars.py'],
  mechanism=[('unit conversion', B + 'tools/helpers.py:convert_to_SI / convert_from_SI'),
             ('presolving of specified states', B + 'connections/connection.py:Connection.presolve'),
             ('results', B + 'connections/connection.py:Connection.calc_results; networks/network.py:Network.process_connections')]),
 dict(id='N01', title='Numerical derivatives are derivatives and leave the state alone',
  statement='Every numerical derivative (of fluid properties with respect to pressure, enthalpy, vapour fraction and composition, of component '
  'equations and bus values with respect to any variable) equals the derivative of the function it is applied to up to the truncation error of a centred difference, also at the limits of the composition. '
  'Computing it changes neither the state of the connection nor the fluid data nor the component parameters.',
  over=[INP], text='all arguments and all functions that are quadratic on the width of the step',
  why='an error of the step or a state that is not restored only distorts the iteration; tests look at converged results',
  files=[B + 'tools/helpers.py', B + 'tools/fluid_properties/functions.py'],
  mechanism=[('numerical derivative of equations', B + 'tools/helpers.py:_numeric_deriv, central_difference'),
             ('numerical derivatives of fluid properties', B + 'tools/fluid_properties/functions.py:dT_mix_pdh and others')]),
 dict(id='N02', title='Root searches respect their limits and return roots',
  statement='The one-dimensional Newton searches (temperature of mixtures from enthalpy or entropy, friction factor) never evaluate outside their limits beyond the start value, '
  'and when they end before the iteration limit the requested tolerance between function and target is met. For functions '
  'that are linear the exact root inside the limits is found from every start value.',
  over=[INP], text='all functions, targets, limits, start values and tolerances; up to three iterations of the search',
  why='tests sample a few mixtures and start values; the result of a search that gives up silently looks like a number',
  files=[B + 'tools/helpers.py', B + 'tools/fluid_properties/helpers.py', B + 'tools/fluid_properties/functions.py'],
  mechanism=[('Newton search', B + 'tools/helpers.py:newton_with_kwargs'), ('temperature of mixtures', B + 'tools/fluid_properties/helpers.py:inverse_temperature_mixture')]),
 dict(id='M01', title='Fluid properties of mixtures follow the mixing rule',
  statement='Enthalpy, entropy, specific volume and viscosity of a mixture follow from the properties of its species by the '
  'selected mixing rule (ideal gas, ideal gas with condensation of water, incompressible), are independent of the order of the species and of '
  'species that are absent, and reduce to the property of the species for pure fluids. With condensation the vapour phase is saturated, '
  'and gas and liquid fractions conserve every species.',
  over=[INP, CFG], text='all compositions, pressures, temperatures and species properties; two and three species, water under all its names',
  why='tests compare a handful of compositions with reference numbers',
  files=[B + 'tools/fluid_properties/mixtures.py', B + 'tools/fluid_properties/functions.py', B + 'tools/fluid_properties/helpers.py'],
  mechanism=[('mixing rules', B + 'tools/fluid_properties/mixtures.py:h_mix_pT_ideal and others'),
             ('condensation', B + 'tools/fluid_properties/mixtures.py:cond_check')]),
 dict(id='H01', title='Characteristic lines and maps interpolate their data',
  statement='A characteristic line returns its data at the supporting points, the linear interpolation between them, and outside the '
  'nearest value or, with extrapolation, the continuation of the outer segment; a characteristic map does the same along and between its lines. '
  'Evaluations do not change the data, and the operating point check reports exactly the points outside of the data.',
  over=[INP], text='all supporting points and operating points; lines with up to five, maps with up to 4 x 4 points',
  why='tests evaluate single characteristics at single points',
  files=[B + 'tools/characteristics.py'],
  mechanism=[('lines', B + 'tools/characteristics.py:CharLine'), ('maps', B + 'tools/characteristics.py:CharMap')]),
 dict(id='V01', title='A solver step changes free variables only, and by the Newton increment',
  statement='An iteration of the solver changes exactly the variables of the system, each by the solution of the linearised system, '
  'afterwards limited to the valid range of mass flow, pressure, enthalpy, mass fraction and component parameters that applies. Values fixed by the user, '
  'or determined from them beforehand, are never changed by a step, by a limit or by a correction of starting values.',
  over=[INP, CFG], text='all states, limits and increments; each kind of variable alone and coupled; the starting value corrections of every component and connection',
  why='a step that is cut wrongly or a specification overwritten in a rare branch still converges in the sampled examples',
  files=[B + 'networks/network.py', B + 'connections/connection.py', B + 'components/'],
  mechanism=[('Newton step', B + 'networks/network.py:Network.update_variables, matrix_inversion'),
             ('limits', B + 'networks/network.py:Network.check_connection_properties, check_variable_bounds, check_component_variables'),
             ('starting values', B + 'components/*/*.py:convergence_check')]),
 dict(id='V02', title='A calculation is reported as converged only if its equations are satisfied',
  statement='A calculation ends as converged exactly if the residual of the equations fell below the documented threshold in the last evaluations '
  'and the minimum of iterations is reached; otherwise it ends with the status telling of linear dependency or lack of progress, whatever calculations '
  'were made before with the same network. Results are available for calculations not linearly dependent, and a network with linear equations is solved exactly from every starting value.',
  over=[INP, HIST], text='all values of the equations over up to four iterations; repeated calculations after singular and after converged ones',
  why='tests solve benign problems; an accepted but unsolved state looks like a result',
  files=[B + 'networks/network.py'],
  mechanism=[('main loop', B + 'networks/network.py:Network.solve_loop, solve'), ('status', B + 'networks/network.py:Network.matrix_inversion')]),
 dict(id='E01', title='Exergy of streams follows the documented definitions',
  statement='Specific thermal and mechanical exergy of a stream follow from enthalpy and entropy of its state, of the state at ambient temperature and '
  'its pressure and of the ambient state, and their sum is the physical exergy. Chemical exergy follows from the standard exergies of the species, '
  'for mixtures with the entropy of mixing and the condensed part of the water at ambient state, and all exergy flows are the specific values times mass flow.',
  over=[INP, CFG], text='all states, ambient states, compositions, standard exergies; pure fluids, mixtures of two and three species, with and without condensation',
  why='tests compare sums of a few plants, in which errors of single streams cancel',
  files=[B + 'connections/connection.py', B + 'tools/fluid_properties/'],
  mechanism=[('physical exergy', B + 'tools/fluid_properties/functions.py:calc_physical_exergy'),
             ('chemical exergy', B + 'tools/fluid_properties/mixtures.py:exergy_chemical_ideal_cond')]),
 dict(id='E02', title='Exergy balances of components close',
  statement='Fuel and product exergy of each component are those documented for the temperatures of its streams relative to ambient temperature, and the exergy '
  'destruction is the exergy entering minus the exergy leaving with streams, power and heat. For adiabatic components with a solved energy balance it equals ambient temperature times '
  'the entropy production, and the efficiency is product over fuel.',
  over=[INP, CFG], text='all exergies, temperatures, power and heat of the streams: all temperature regimes of every component with an exergy balance',
  why='tests reach few of the temperature regimes',
  files=[B + 'components/'],
  mechanism=[('exergy balance', B + 'components/*/*.py:exergy_balance'), ('entropy balance', B + 'components/*/*.py:entropy_balance')]),
 dict(id='A01', title='Exergy analysis of the network is consistent',
  statement='Fuel, product and loss exergy of the network are the exergies crossing the respective busses, its exergy destruction is the sum over components and busses, and '
  'fuel minus product minus loss equals destruction. Tables of components, busses, aggregated components, streams and functional groups show these values and their ratios, and the '
  'exergy flows between groups balance at every group.',
  over=[INP, CFG], text='all exergies, power, heat and bus efficiencies of six plants with internal busses, groups, heat as product and loss, combustion',
  why='tests only compare totals of plants where all contributions are present in one arrangement',
  files=[B + 'tools/analyses.py'],
  mechanism=[('totals', B + 'tools/analyses.py:ExergyAnalysis.analyse'), ('busses', B + 'tools/analyses.py:ExergyAnalysis.evaluate_busses'),
             ('groups', B + 'tools/analyses.py:ExergyAnalysis.create_group_data')]),
 dict(id='T01', title='Equations depend on the specifications, not on the history',
  statement='After any sequence of specifying, unspecifying and changing parameters, fluids, references, busses and user defined equations, with calculations in between that converge, '
  'fail to converge, are only initialised or are aborted by an error, the next calculation has the variables, equations and residuals of a new network with the same specifications. '
  'A calculation, completed or aborted, leaves the specifications the user made unchanged.',
  over=[INP, CFG, HIST], text='every listed specification set after every other (also invalid ones) with every outcome of the calculation in between, all values of the final specifications',
  why='histories multiply; tests reuse a network along a few happy paths',
  files=[B + 'networks/network.py', B + 'connections/connection.py', B + 'components/component.py'],
  mechanism=[('restore specifications', B + 'networks/network.py:Network.reset_topology_reduction_specifications'),
             ('presolving', B + 'networks/network.py:Network.presolve_massflow_topology'), ('initialise', B + 'networks/network.py:Network.initialise')]),
 dict(id='D01', title='Design and off-design mode use the documented data',
  statement='In off-design mode the parameters listed in design are released, those listed in offdesign are imposed with the values of the design files, and every design value equals the '
  'value in the design file converted to SI, whatever units the file and the network use. Individual design paths, local_design and local_offdesign select the file and mode for single objects, '
  'and earlier calculations in either mode do not change what the next one imposes.',
  over=[INP, CFG, HIST], text='all values of the design files and specifications, units of files and network, eight sequences of earlier calculations',
  why='tests run one design and one off-design calculation in the same units',
  files=[B + 'networks/network.py'],
  mechanism=[('off-design', B + 'networks/network.py:Network.init_offdesign'), ('design', B + 'networks/network.py:Network.init_design'),
             ('design data', B + 'networks/network.py:Network.init_offdesign_params')]),
 dict(id='X01', title='A network exported and loaded again is the same network',
  statement='Loading an exported network gives the same components, connections, busses, characteristics, units, limits and attributes, with every specification of any kind and value, '
  'independent of earlier specifications and calculations. It has the same variables and equations as the original, and specifying it again has the same effect on both.',
  over=[INP, CFG, HIST], text='all values; every specification of every component class, all attributes, four networks with earlier specifications and calculations',
  why='tests export two plants and compare a few numbers',
  files=[B + 'networks/network_reader.py', B + 'networks/network.py', B + 'tools/data_containers.py'],
  mechanism=[('load', B + 'networks/network_reader.py:load_network'), ('export', B + 'networks/network.py:Network.export')]),
 dict(id='X02', title='Saved results are read back as the state that was saved',
  statement='Results saved by one network are, read by the same or an equal network as starting values (init_path) or as design data (design_path), the saved state in SI units, whatever units either '
  'network uses. Reading starting values changes no specification, no equation and no unit of the results.',
  over=[INP, CFG], text='all states and results; every pair of unit systems; ten networks with pure fluids, mixtures, combustion, busses',
  why='tests save and read in one unit system',
  files=[B + 'networks/network.py'],
  mechanism=[('save', B + 'networks/network.py:Network.save'), ('starting values', B + 'networks/network.py:Network.init_conn_params_from_path'),
             ('design data', B + 'networks/network.py:Network.init_conn_design_params')]),
 dict(id='W01', title='Property functions return the named property at the given state',
  statement='Every function of the property back ends (CoolProp, IAPWS, pyromat) and the functions of pure fluids on top of them returns the property it names, in SI units, at exactly the state '
  'it is given, independent of earlier calls. Above the critical point saturation functions use the documented substitute state, and the constants of the fluid are in SI units.',
  over=[INP, HIST], text='all states within the limits of the back end, every function after one earlier call of any function at any other state; back ends are stand-ins with uninterpreted equations of state',
  why='tests use one back end and a handful of states; a wrong unit or a stale cached state shows only for particular call orders',
  files=[B + 'tools/fluid_properties/wrappers.py', B + 'tools/fluid_properties/functions.py'],
  mechanism=[('back ends', B + 'tools/fluid_properties/wrappers.py'), ('pure fluids', B + 'tools/fluid_properties/functions.py')]),
 dict(id='U01', title='Values are interpreted and reported in the units of the network',
  statement='Limits, starting values, pressure losses and ambient temperatures given by the user are interpreted in the units of the network, results are reported in them, and SI values inside follow by '
  'the published conversion factors. Changing the units between calculations changes neither the limits nor the state the next calculation starts from.',
  over=[INP, CFG, HIST], text='all values, every unit of every property, two calculations in different units',
  why='tests use one or two units of each property',
  files=[B + 'networks/network.py', B + 'tools/helpers.py', B + 'tools/global_vars.py', B + 'components/heat_exchangers/'],
  mechanism=[('units', B + 'networks/network.py:Network.set_attr'), ('conversion', B + 'tools/helpers.py:convert_to_SI'),
             ('pressure losses', B + 'components/heat_exchangers/base.py:HeatExchanger.preprocess')]),
 dict(id='G01', title='A network is what was added to it and not deleted from it',
  statement='After any sequence of adding and deleting connections, busses, user defined equations and subsystems the network contains exactly those added and not deleted, and the components of its connections. '
  'Labels in use are refused without effect, and a network passes its check if and only if every inlet and outlet of every component is connected exactly once. '
  'A rearranged network has the variables and equations of a new one with the same topology and specifications.',
  over=[CFG, HIST, INP], text='sequences of operations by symbolic choice, every change between six topologies after every outcome of a calculation',
  why='tests build networks once; deletions, refusals and reused labels combine in many orders',
  files=[B + 'networks/network.py'],
  mechanism=[('connections', B + 'networks/network.py:Network.add_conns'), ('deletion', B + 'networks/network.py:Network.del_conns'),
             ('check', B + 'networks/network.py:Network.check_network')]),
 dict(id='B01', title='Calculations start exactly for determined problems',
  statement='A calculation starts exactly if the number of specifications equals the degrees of freedom left by the mandatory equations of the components; '
  'every single specification of a connection, component, bus or user defined equation takes one of them, and otherwise the calculation is refused with an error. '
  'In the system that is solved every equation has a row and every variable a column of its own.',
  over=[INP, CFG], text='all values, every component with every specification left out or added, compositions of pure fluids and mixtures',
  why='tests use complete specifications; miscounted equations show only for particular components, fluids or combinations',
  files=[B + 'networks/network.py', B + 'components/', B + 'connections/connection.py'],
  mechanism=[('count', B + 'networks/network.py:Network.solve_determination'), ('components', B + 'components/component.py:Component.preprocess'),
             ('connections', B + 'connections/connection.py:Connection.preprocess')]),
 dict(id='O01', title='Optimization evaluates the declared problem',
  statement='In an optimization every evaluation passes the value of each decision variable to the model at the object, label and parameter it was declared for, with the '
  'bounds declared for it; it returns the objective and, for every declared constraint, a value that is not positive exactly if the limit (a number or another '
  'parameter) is kept. The table of individuals holds variables, objective and constraints of every individual of every generation and marks exactly those as valid '
  'that keep all constraints; the declaration of the user is not changed.',
  over=[INP, CFG], text='all values of variables, limits, model results and populations, several shapes of declarations',
  why='needs every combination of declared variables, limits and outcomes; pygmo is not exercised by the tests of this environment',
  files=[B + 'tools/optimization.py', B + 'tools/helpers.py'],
  mechanism=[('evaluation', B + 'tools/optimization.py:OptimizationProblem.fitness'), ('constraints', B + 'tools/optimization.py:OptimizationProblem.collect_constraints'),
             ('table', B + 'tools/optimization.py:OptimizationProblem.run')]),
]

NOT_APPLICABLE = []

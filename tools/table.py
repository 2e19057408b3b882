"""The properties (source of properties.jsonl and MANIFEST.json).

P(id, title, statement, quantifier text, why tests cannot, files, mechanism)
"""

PROPS = []
S = "src/oemof/solph/"


def P(pid, title, statement, over, text, why, files, mech, observe=None):
    anchors = {
        "files": [S + f for f in files],
        "mechanism": [{"name": n, "where": S + w} for n, w in mech],
    }
    if observe:
        anchors["observe_at"] = observe
    PROPS.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": anchors,
        }
    )


IN = ["inputs", "configurations"]
LP = (
    "The tests compare a few hand-written systems with stored LP files or "
    "with one optimal value; they say nothing about other parameter "
    "combinations, series, time increments or graph shapes, and a stored "
    "file also fixes mistakes."
)

P(
    "C01",
    "Every balanced bus is balanced at every time step",
    "At every time step the sum of the flows into a balanced bus equals the "
    "sum of the flows out of it, for every bus, number of connections and "
    "time increment. A bus that is declared as not balanced imposes no such "
    "restriction.",
    IN,
    "all energy systems built from buses, sources and sinks with any number "
    "of parallel, missing or looped connections; all time axes",
    LP,
    ["buses/_bus.py", "_models.py"],
    [("bus balance constraint", "buses/_bus.py")],
)
P(
    "C02",
    "Flows keep their capacity, minimum, maximum and fixed profile",
    "For every time step a flow with a nominal capacity stays between that "
    "capacity times its minimum and times its maximum, and equals the "
    "capacity times the fixed profile if one is given. A flow is non-negative "
    "unless a negative minimum is given, and unlimited upwards without a "
    "nominal capacity.",
    IN,
    "all combinations of nominal capacity with scalar and series minimum, "
    "maximum and fixed profile, all time steps",
    LP,
    ["_models.py", "flows/_flow.py", "flows/_simple_flow_block.py"],
    [("bounds and fixing of the flow variables", "_models.py"),
     ("processing of the flow parameters", "flows/_flow.py")],
)
P(
    "C03",
    "Variable costs are charged per energy transported",
    "The objective contains, for every flow with variable costs, the costs "
    "of each time step times the flow times the duration of that time step "
    "(times the objective weighting), and nothing for flows without costs. "
    "Costs may be scalar or a series, positive or negative, and time steps "
    "may differ in length.",
    IN,
    "all series of costs, all time increments and objective weightings",
    LP,
    ["flows/_simple_flow_block.py", "_models.py"],
    [("objective of simple flows", "flows/_simple_flow_block.py")],
)
P(
    "C04",
    "Full load time limits bound the transported energy",
    "The energy a flow transports over the time horizon lies between its "
    "capacity times the minimum and times the maximum full load time. The "
    "capacity is the nominal one or, if it is optimised, the total one of "
    "the solution.",
    IN,
    "all limits, time increments and flow parameters; flows with fixed and "
    "with optimised capacity",
    LP,
    ["flows/_simple_flow_block.py", "flows/_investment_flow_block.py"],
    [("full load time constraints", "flows/_simple_flow_block.py"),
     ("full load time constraints of investments",
      "flows/_investment_flow_block.py")],
)
P(
    "C05",
    "Gradient limits bound the change between time steps",
    "From each time step to the next a flow with a gradient limit rises by "
    "at most the positive limit and falls by at most the negative one, each "
    "times the nominal capacity. This holds for flows without and with a "
    "status, wherever limits are given in the time series, and flows without "
    "limits change freely.",
    IN,
    "all scalar and series limits on all kinds of flows with fixed capacity",
    LP,
    ["flows/_simple_flow_block.py", "flows/_shared.py"],
    [("gradient constraints", "flows/_simple_flow_block.py"),
     ("gradient constraints with status", "flows/_shared.py")],
)
P(
    "C06",
    "Integer flows take integer values only",
    "A flow that is declared as integer takes integer values at every time "
    "step and all integer values inside its bounds stay possible; other "
    "flows are not restricted to integers.",
    IN,
    "all systems that mix integer and continuous flows",
    LP,
    ["flows/_simple_flow_block.py", "_models.py"],
    [("integer variables", "flows/_simple_flow_block.py")],
)
P(
    "C07",
    "A flow with a status is off, or between minimum and maximum",
    "At every time step a flow with an on/off status is either zero (off) or "
    "between its minimum and its maximum share of the nominal capacity (on). "
    "Costs for being active and for being inactive are charged according to "
    "that status.",
    IN,
    "all minimum and maximum series, running and idle costs, any number of "
    "status flows in one system",
    LP,
    ["flows/_non_convex_flow_block.py", "flows/_shared.py"],
    [("minimum and maximum with status", "flows/_shared.py")],
)
P(
    "C08",
    "Minimum up- and downtimes hold over every schedule",
    "Once switched on, a flow stays on for at least its minimum uptime (or "
    "until the end of the horizon), and once off, it stays off for at least "
    "its minimum downtime; both may vary over time. At the beginning and the "
    "end of the horizon the status is held at the initial status as "
    "documented, and every schedule that keeps the rules stays possible.",
    ["inputs", "histories"],
    "all on/off histories of the status flows, all up- and downtimes "
    "(scalar, series, longer than the horizon), both initial states",
    LP,
    ["flows/_shared.py", "_options.py"],
    [("minimum up- and downtime constraints", "flows/_shared.py"),
     ("first and last flexible time step", "_options.py")],
)
P(
    "C09",
    "Startups and shutdowns are counted, charged and limited",
    "Every change of the status from off to on counts as a startup and every "
    "change from on to off as a shutdown, the first time step being compared "
    "with the initial status. Startup and shutdown costs are charged for "
    "exactly these, and maximum numbers of startups and shutdowns hold.",
    ["inputs", "histories"],
    "all on/off histories, cost series and limits, both initial states",
    LP,
    ["flows/_shared.py", "_options.py"],
    [("startup and shutdown constraints and costs", "flows/_shared.py")],
)
P(
    "C10",
    "On/off flows with optimised capacity respect the invested capacity",
    "A flow with both a status and an optimised capacity is zero when off "
    "and between its minimum and maximum share of the invested capacity when "
    "on, with the rules for uptimes, downtimes, startups and costs in "
    "effect. The capacity stays within the limits of the investment, and its "
    "costs are charged.",
    IN,
    "all combinations of investment limits and commitment parameters",
    LP,
    ["flows/_invest_non_convex_flow_block.py", "flows/_shared.py"],
    [("linearised product of status and capacity",
      "flows/_invest_non_convex_flow_block.py")],
)
P(
    "C11",
    "Invested capacity is bounded, paid for and limits the flow",
    "The capacity added to a flow stays within the minimum and maximum "
    "investment (or is zero, if the investment is optional), is paid for "
    "with specific and one-time costs, and together with existing capacity "
    "limits the flow by minimum, maximum and fixed profile at every time "
    "step.",
    IN,
    "all investment parameters (existing capacity, optional investments, "
    "offsets) with all flow parameters",
    LP,
    ["flows/_investment_flow_block.py", "_options.py"],
    [("investment constraints and costs", "flows/_investment_flow_block.py")],
)
P(
    "C12",
    "Converters keep all conversion factors at every time step",
    "For every pair of an input and an output of a converter, the flows "
    "divided by their conversion factors are equal at every time step. "
    "Factors may be scalar or series, are one by default, and none of the "
    "input-output pairs is left out.",
    IN,
    "all numbers of inputs and outputs, all factors incl. zero and negative "
    "ones, scalar or series",
    LP,
    ["components/_converter.py"],
    [("relation constraint", "components/_converter.py")],
)
P(
    "C13",
    "Links transport between their buses with their losses only",
    "For each connection of a link, what it delivers to the one bus equals "
    "what it takes from the other bus times the conversion factor of that "
    "connection, at every time step. Nothing else restricts its flows.",
    IN,
    "links with any connections between two or more buses, scalar and series "
    "factors, unlimited or limited flows",
    LP,
    ["components/_link.py"],
    [("link constraints", "components/_link.py")],
)
P(
    "C14",
    "Extraction turbines stay on their operation field",
    "For every time step the fuel, main output and tapped output of an "
    "extraction turbine satisfy the relation of the full condensation "
    "efficiency, and the tapped output never exceeds the backpressure ratio "
    "to the main output.",
    IN,
    "all efficiencies and conversion factors, scalar or series, for which "
    "the operation field is defined",
    LP,
    ["components/_extraction_turbine_chp.py"],
    [("operation field constraints",
      "components/_extraction_turbine_chp.py")],
)
P(
    "C15",
    "Combined heat and power plants stay on their operation field",
    "A detailed combined heat and power plant is either off (no fuel, power, "
    "heat) or works at a point of the field described by its power, heat, "
    "flue gas loss and efficiency parameters: fuel, power and heat balance, "
    "minimum and maximum loads, and the backpressure condition.",
    IN,
    "all parameter sets for extraction, backpressure and motoric plants over "
    "all time steps",
    LP,
    ["components/_generic_chp.py"],
    [("plant constraints", "components/_generic_chp.py")],
)
P(
    "C16",
    "Offset converters follow their load-dependent efficiency",
    "When on, each flow of a converter with offset equals slope times the "
    "reference flow plus offset times nominal capacity; when off, all of its "
    "flows are zero. This holds per time step for any number of inputs and "
    "outputs and for every choice of the reference flow, also with an "
    "optimised capacity.",
    IN,
    "all slope/offset series, reference flows on the input or output side, "
    "fixed and optimised capacities",
    LP,
    ["components/_offset_converter.py"],
    [("relation with status and offset", "components/_offset_converter.py")],
)
P(
    "C17",
    "Storages follow their energy balance and level limits",
    "From one time point to the next, the content of a storage changes by "
    "what flows in and out (with the conversion factors) and by its "
    "relative, fixed relative and fixed absolute losses, for any duration of "
    "the time step. It stays within its level limits at every time point, "
    "starts at the initial level, ends as it began if balanced, and its "
    "content is charged with storage costs.",
    ["inputs", "histories"],
    "all charging histories, storage parameters (scalar or series) and time "
    "increments",
    LP,
    ["components/_generic_storage.py"],
    [("storage balance, losses and bounds",
      "components/_generic_storage.py")],
)
P(
    "C18",
    "Charging slows down with the state of charge",
    "A storage with a state-of-charge-dependent charging limit takes in, at "
    "every time step, at most the power that belongs to the content reached "
    "at the end of that step: full power up to the given state of charge, "
    "then falling linearly to the saturation share at full state of charge.",
    IN,
    "all charge limits, saturation shares and level limits, scalar or series",
    LP,
    ["components/_generic_storage.py"],
    [("charge limit constraint", "components/_generic_storage.py")],
)
P(
    "C19",
    "Storages with optimised capacity keep all capacity relations",
    "The invested storage capacity respects its investment limits and costs, "
    "and its content respects level limits, initial level, losses and "
    "balance relative to the total capacity. Fixed relations between "
    "capacity, charging and discharging power hold exactly.",
    IN,
    "all investment and storage parameters, all combinations of capacity "
    "relations",
    LP,
    ["components/_generic_storage.py"],
    [("investment storage constraints and costs",
      "components/_generic_storage.py")],
)
P(
    "C20",
    "Capacities age and are decommissioned at the end of their lifetime",
    "In a model over several years, the capacity available in each period is "
    "what existed or was built before and has not reached its lifetime: "
    "capacity built in a period retires in the first period that starts at "
    "least its lifetime later, and existing capacity does so counting its "
    "age. Limits on the total capacity hold in every period (maximum) and at "
    "the end (minimum).",
    ["inputs", "histories"],
    "all sequences of investment periods, lifetimes, ages and existing "
    "capacities of flows and storages",
    LP,
    ["flows/_investment_flow_block.py", "_energy_system.py"],
    [("old capacity constraints", "flows/_investment_flow_block.py"),
     ("period matrix", "_energy_system.py")],
)
P(
    "C21",
    "Costs of several years are annualised and discounted",
    "In a model over several years, the objective is the sum of the "
    "annuities of the years in which a new capacity exists, their fixed "
    "costs, and the variable costs weighted with the length of each period "
    "and discounted to the first year. Investments that outlive the horizon "
    "are credited with their remaining value, if that is requested.",
    IN,
    "all period lengths, discount rates, interest rates, lifetimes, ages "
    "and cost parameters",
    LP,
    ["flows/_investment_flow_block.py", "components/_generic_storage.py",
     "flows/_simple_flow_block.py", "_models.py"],
    [("objective of multi-period investments",
      "flows/_investment_flow_block.py")],
)
P(
    "C22",
    "Typical periods count as often as they occur",
    "In a model over typical periods, variable costs, startup and other "
    "operation costs and full load times count each typical period as often "
    "as it occurs in the represented time, and segments count with their "
    "duration. The optimum equals that of the represented time in which "
    "equal periods are operated equally.",
    IN,
    "all orders of typical periods, segment lengths and years",
    LP,
    ["_models.py", "flows/_simple_flow_block.py", "flows/_shared.py"],
    [("weights of typical periods", "_models.py")],
)
P(
    "C23",
    "Storages carry energy across the represented order of periods",
    "In a model over typical periods, the content of a storage follows the "
    "order in which the typical periods occur: each occurrence starts with "
    "the content the previous one left, with all losses applied. Level "
    "limits hold at the begin of every time step of every occurrence and at "
    "the end; initial level and balance apply to the represented time.",
    ["inputs", "histories"],
    "all orders of typical periods, segment lengths and storage parameters "
    "(nominal capacities)",
    LP,
    ["components/_generic_storage.py", "_models.py"],
    [("inter and intra period balances", "components/_generic_storage.py")],
)
P(
    "C24",
    "Limits on weighted energy sums hold over the whole horizon",
    "A limit on an integral (for example on emissions) bounds the sum over "
    "all flows with the given weight of flow times weight times duration, "
    "and as a lower limit bounds it from below; limits per period hold for "
    "each period. Only flows carrying the weight, or the listed flows, "
    "count.",
    IN,
    "all sets of flows, weights (scalar or series), limits and durations; "
    "one year and several years",
    LP,
    ["constraints/integral_limit.py"],
    [("integral limit constraints", "constraints/integral_limit.py")],
)
P(
    "C25",
    "Limits on investment costs and capacities sum all investments",
    "A limit on the costs of all investments bounds the sum over all flows "
    "and storages, in total or per period. A limit on a weighted sum of "
    "invested capacities counts each investment with its weight.",
    IN,
    "all sets of investments of flows and storages, costs and weights",
    LP,
    ["constraints/investment_limit.py"],
    [("investment limits", "constraints/investment_limit.py")],
)
P(
    "C26",
    "Equated flows and variables keep their ratio",
    "Groups of flows that are equated keep the given ratio of their sums at "
    "every time step, and two equated variables keep their ratio. Other "
    "variables are not affected.",
    IN,
    "all groups of flows, ratios, and pairs of variables",
    LP,
    ["constraints/equate_flows.py", "constraints/equate_variables.py"],
    [("equating constraints", "constraints/equate_flows.py")],
)
P(
    "C27",
    "The number of active flows stays within its limits",
    "At every time step the number of active flows among the flows with a "
    "given keyword stays between the lower and the upper limit. A flow "
    "counts as active by its on/off status.",
    IN,
    "all sets of status flows, keywords and limits",
    LP,
    ["constraints/flow_count_limit.py"],
    [("count constraint", "constraints/flow_count_limit.py")],
)
P(
    "C28",
    "Shared limits bound the weighted sum of several quantities",
    "A shared limit bounds the weighted sum of several quantities (for "
    "example of the contents of storages) between a lower and an upper "
    "limit at every time step or time point of these quantities, including "
    "the last one.",
    IN,
    "all sets of storages or flows, weights and limits",
    LP,
    ["constraints/shared_limit.py"],
    [("shared limit constraint", "constraints/shared_limit.py")],
)
P(
    "C29",
    "Connections open only above or below their storage level",
    "A connection that requires a storage level is only used at time steps "
    "at which the content of the storage is above (or below) the level of "
    "that connection. When the level is reached, the full capacity is "
    "available.",
    ["inputs", "histories"],
    "all level thresholds, numbers of connections and charging histories",
    LP,
    ["constraints/storage_level.py"],
    [("multiplexer constraints", "constraints/storage_level.py")],
)
P(
    "C45",
    "Storages over several years hold content only with capacity",
    "In a model over several years, a storage whose capacity is optimised "
    "starts empty, its content never exceeds the level limits relative to "
    "the capacity of the period, and losses, balance, capacity relations and "
    "costs hold in every period.",
    ["inputs", "histories"],
    "all sequences of periods, lifetimes, ages and storage parameters",
    LP,
    ["components/_generic_storage.py"],
    [("multi-period storage constraints",
      "components/_generic_storage.py")],
)

P(
    "C30",
    "The time axis matches the time index, increments and periods",
    "The time steps, time points, increments, periods and weightings of an "
    "energy system and its model are those of the given time index, "
    "intervals, periods or typical periods, in hours for a datetime index. "
    "An axis that is invalid or ambiguous is refused.",
    IN,
    "datetime and numeric indices, regular and irregular steps, time zones, "
    "inferred last intervals, investment periods, typical periods",
    "The tests use hourly indices and a few variants; errors appear for "
    "unusual steps, offsets, leap years, orders and lengths.",
    ["_energy_system.py", "_models.py", "_helpers.py"],
    [("time index and increments", "_energy_system.py"),
     ("sets of time steps and periods", "_models.py")],
)
P(
    "C31",
    "Contradictory input is refused, consistent input is accepted",
    "Arguments that contradict each other or the documentation (limits "
    "without capacity, infinite values, missing periods, wrong numbers of "
    "connections, ...) raise the documented error when the object is created "
    "or the model is built. Consistent arguments are accepted, and "
    "deprecated names still work with a warning.",
    IN,
    "arguments of all kinds around each of the rules for flows, investments, "
    "storages, converters, constraints and energy systems",
    "The tests sample one wrong value per rule; a check that looks at one "
    "entry of a series, or at one of several orders, passes them.",
    ["flows/_flow.py", "_options.py", "components/_generic_storage.py",
     "components/_offset_converter.py", "constraints/integral_limit.py"],
    [("validation of flows", "flows/_flow.py"),
     ("validation of investments", "_options.py"),
     ("validation of storages", "components/_generic_storage.py")],
)
P(
    "C32",
    "The results object holds exactly the values of the model",
    "The results object returns, for every variable, the value of every "
    "index of the model under the right time, period and node, in total and "
    "by attribute or key. It agrees with the solved model for all time axes.",
    IN,
    "all kinds of systems and time axes; all values of the variables",
    "The tests look at a few values of one solved system; mislabelled "
    "columns or shifted steps are visible only in other shapes.",
    ["_results.py"],
    [("conversion of variables to data frames", "_results.py")],
)
P(
    "C33",
    "Processed results hold the values of the model for each node and flow",
    "The processed results give for every flow and node the series and "
    "scalars of the variables of the model, labelled with the right times "
    "and keys. Typical periods are disaggregated to the original time axis, "
    "duals belong to their bus, and converting keys loses nothing.",
    IN,
    "all kinds of systems and time axes; all values of the variables",
    "The tests look at a few values of one solved system; misattributed or "
    "dropped entries are visible only in other shapes.",
    ["processing.py"],
    [("results and meta results", "processing.py")],
)
P(
    "C41",
    "Listed parameters are the parameters that were given",
    "The parameters listed for nodes and flows are those given by the user, "
    "as scalars or series, and the default otherwise. Nothing is listed for "
    "another node or flow.",
    IN,
    "all kinds of nodes and flows with scalar, series and missing parameters",
    "The tests check two hand-written systems; each class and each kind of "
    "value is converted on its own.",
    ["processing.py", "_plumbing.py"],
    [("conversion of the parameters", "processing.py")],
)
P(
    "C42",
    "Views of results select exactly the requested nodes and flows",
    "Filtering results by node, node type, flow type or column returns "
    "exactly the entries that match, with their unchanged values, and "
    "conversions of keys are consistent.",
    IN,
    "all kinds of systems, node types, filters and options",
    "The tests check a handful of selections on one result; filters depend "
    "on the mix of node kinds and key kinds.",
    ["views.py"],
    [("views of results", "views.py")],
)
P(
    "C44",
    "Piecewise linear converters and compressed air storages keep their curve",
    "The output of a piecewise linear converter is the interpolation of the "
    "given function between its breakpoints, for all supported "
    "representations. Compression, expansion, cavern and heat storage of a "
    "compressed air storage follow their characteristic lines and capacity "
    "limits, and are idle when not operated.",
    ["inputs", "histories"],
    "all breakpoints and values, representations, parameters of the storage "
    "and charging histories",
    "The tests compare one model file per component; the lines have many "
    "parameters whose interplay is only visible in the optimal operation.",
    ["components/experimental/_piecewise_linear_converter.py",
     "components/experimental/_generic_caes.py"],
    [("piecewise linear relation",
      "components/experimental/_piecewise_linear_converter.py"),
     ("equations of the storage",
      "components/experimental/_generic_caes.py")],
)
P(
    "C34",
    "Solving tells apart optimal and all other outcomes",
    "Solving returns results only if the solver reports an optimal solution. "
    "Otherwise it raises an error that names status and termination or, if "
    "non-optimal outcomes are allowed, warns and returns the raw solver "
    "results. Options reach the solver unchanged.",
    ["inputs", "configurations", "fault points"],
    "all outcomes a solver can report, infeasible, unbounded and ordinary "
    "systems, all combinations of options",
    "The tests check one infeasible and one optimal system; a solver can end "
    "in many more ways, and a wrong reaction hands out meaningless numbers.",
    ["_models.py", "_energy_system.py"],
    [("reaction on the outcome of the solver", "_models.py")],
)
P(
    "C35",
    "The reported solution is a cheapest feasible plan of the system",
    "The objective value and all flows, contents and capacities that are "
    "reported after solving satisfy every constraint of the given system, "
    "cost what is reported, and no cheaper plan exists.",
    IN,
    "all kinds of systems: dispatch, investment, unit commitment, several "
    "parts; several solvers and interfaces",
    LP,
    ["_models.py", "_results.py", "processing.py"],
    [("model, solver interface and results", "_models.py")],
)
P(
    "C39",
    "Parameters given as numbers or sequences mean the same values",
    "A scalar stands for the same value at every step, and any sequence "
    "stands for its values at every position. Missing entries are errors "
    "instead of silent values, and helper functions flatten and classify "
    "nested data correctly.",
    IN,
    "all kinds of scalars, sequences and nested containers",
    "The tests check a few literals; a wrong conversion of one kind of "
    "container silently changes a parameter.",
    ["_plumbing.py", "_helpers.py", "helpers.py"],
    [("conversion of parameters to sequences", "_plumbing.py")],
)
P(
    "C40",
    "Helpers give lines through the specified full and part load points",
    "Slope and offset calculated from two load points reproduce both points "
    "for every reference, as numbers or series, and an offset converter built "
    "from them works at exactly these efficiencies.",
    IN,
    "all efficiencies, loads and references, as scalars and series",
    "The tests compare a few numbers; the lines must hit both points for all "
    "loads, efficiencies and references.",
    ["components/_offset_converter.py"],
    [("calculation of slope and offset", "components/_offset_converter.py")],
)
P(
    "C43",
    "Systems of several parts behave as the conjunction of their parts",
    "If several components, buses and additional constraints of any kind are "
    "combined in one energy system, each keeps its documented behaviour, "
    "costs add up, and nothing is coupled except by common buses and "
    "explicit constraints.",
    IN,
    "all combinations of parts of all kinds on dispatch, multi-period and "
    "aggregated time axes",
    "The tests build small systems for one feature; blocks of constraints of "
    "different features share sets and variables and may disturb each other.",
    ["_models.py", "buses/_bus.py", "flows/_flow.py", "components/",
     "constraints/"],
    [("grouping of nodes and flows into blocks", "_groupings.py")],
)
P(
    "C46",
    "Relaxed models and duals give the marginal values of the system",
    "Relaxing a model keeps all constraints and drops only integrality. The "
    "duals of the bus balances are marginal costs of the optimal system, and "
    "reduced costs those of changing a flow.",
    IN,
    "all kinds of systems with optimal solution and all their buses",
    "The tests compare the duals of one system; wrong signs or assignments "
    "are visible only for other shapes.",
    ["_models.py", "processing.py"],
    [("import of duals and relaxation", "_models.py")],
)
P(
    "C36",
    "Equivalent descriptions of a system give equivalent models",
    "The order of nodes and parameters, labels, subnodes, adding nodes in "
    "several steps (before and after a first model), scalars instead of "
    "constant series, the kind of container, sharing of equal parameter "
    "objects, given defaults, custom properties, deprecated names and the form of the time axis "
    "do not change plans or costs of a model.",
    IN,
    "all kinds of systems and all combinations of such changes",
    "The tests describe each system in one way; dependence on order, labels "
    "or containers shows only when two descriptions are compared.",
    ["_energy_system.py", "_models.py", "_plumbing.py", "flows/_flow.py",
     "_options.py"],
    [("groups and sets of the model", "_models.py"),
     ("defaults and deprecated names", "flows/_flow.py")],
)
P(
    "C37",
    "Dividing time steps does not change the optimum of linear systems",
    "If all data are constant within a time step, dividing the step into "
    "equal parts leaves the optimal cost, capacities, mean flows and contents "
    "of linear systems unchanged, on plain and multi-period time axes.",
    IN,
    "all linear systems without relative losses and all divisions of steps",
    "The tests mostly use hourly steps of equal length; wrong use of the "
    "time increment shows only for other steps.",
    ["_models.py", "flows/_simple_flow_block.py",
     "flows/_investment_flow_block.py", "components/_generic_storage.py",
     "constraints/integral_limit.py"],
    [("use of the time increment", "flows/_simple_flow_block.py"),
     ("use of the time increment", "components/_generic_storage.py")],
)
P(
    "C38",
    "Dumped energy systems are restored with all parameters and results",
    "Dumping an energy system to a file and restoring it keeps all nodes, "
    "their types, all parameters of nodes and flows, the time axis and "
    "attached results; views of restored results are the same.",
    IN,
    "all kinds of systems with and without results, all ways to dump and "
    "restore",
    "The tests restore two systems and look at a few values.",
    ["_energy_system.py", "_plumbing.py", "_options.py", "flows/_flow.py"],
    [("state of nodes, flows and sequences", "_plumbing.py")],
)
P(
    "C47",
    "Building, solving and reading results have no side effects",
    "Building a model or reading its results changes neither the parameters "
    "handed over by the user nor the energy system nor other models. A second "
    "model built from the same system or parameters is equivalent.",
    ["inputs", "histories"],
    "all kinds of systems and sequences of building, relaxing, processing "
    "and listing parameters",
    "The tests build each model once; shared default objects or changed "
    "inputs show only in sequences.",
    ["_models.py", "_energy_system.py", "_results.py", "processing.py"],
    [("construction of the model", "_models.py"),
     ("conversion of results", "processing.py")],
)

P(
    "C48",
    "Investment storages work over typical periods",
    "Storages with an invested capacity follow the represented order of "
    "typical periods with all losses and costs; their content keeps the level "
    "limits relative to the invested capacity at every time, also at the end. "
    "They start with the initial level, or empty with several years. Capacity "
    "relations and all costs apply as without typical periods.",
    ["inputs", "histories", "configurations"],
    "all orders of typical periods, segment lengths, years and storage "
    "parameters with investments",
    LP,
    ["components/_generic_storage.py", "_models.py"],
    [("investment storages with inter and intra period balances",
      "components/_generic_storage.py")],
)

P(
    "C49",
    "Cost shares and limited totals of a model have their documented values",
    "The shares of the objective that the blocks of a model name (variable, "
    "fixed, investment, start, shutdown, activity, inactivity and storage "
    "costs) have their documented values at every operation plan, and each "
    "block's costs are the sum of its shares. The totals that limits name "
    "(integrals, additional investment limits, counts of active flows, shared "
    "storage limits) equal the limited quantity.",
    ["inputs", "configurations"],
    "all cost parameters of flows, investments and storages, and all limits, "
    "with several years and typical periods",
    "The tests read only a few of these values for single systems; a cost in "
    "the wrong share, or counted in the objective only, stays unnoticed.",
    ["flows/_simple_flow_block.py", "flows/_non_convex_flow_block.py",
     "flows/_investment_flow_block.py", "components/_generic_storage.py",
     "constraints/integral_limit.py"],
    [("variable and fixed costs", "flows/_simple_flow_block.py"),
     ("costs of starts and activity", "flows/_shared.py"),
     ("integral totals", "constraints/integral_limit.py")],
)

P(
    "C50",
    "Components, blocks and models defined by users take part in a model",
    "A block of constraints and costs defined by a user takes part in the "
    "model with all nodes of its group, once, whether it is found by its mark, "
    "given to the model or listed by a subclass of Model. Subclasses of "
    "solph's components act like these, nodes without a block only exchange "
    "flows, and time increments given to the model replace those of the "
    "system.",
    ["inputs", "configurations"],
    "all systems with converters, ends and classes replaced by equivalent "
    "ones of a user, in all ways of declaring them",
    "No test defines own blocks or components; grouping and collection of "
    "costs must work for any class.",
    ["_models.py", "_groupings.py"],
    [("collection of blocks", "_models.py"),
     ("grouping of nodes", "_groupings.py")],
)

P(
    "C51",
    "Limits can be added to a model at any time, also between solving it",
    "A model to which limits are added step by step, also after solving it, "
    "is equivalent to one built with all of them, and each solution is the "
    "optimum of the model at that time. An integral limit that is set again "
    "replaces the former one.",
    ["inputs", "histories"],
    "all sequences of solving and of adding and replacing limits of all kinds",
    "The tests add each limit once to a fresh model; leftovers of earlier "
    "solutions or limits show only in histories.",
    ["constraints/integral_limit.py", "_models.py"],
    [("limits added to a model", "constraints/integral_limit.py"),
     ("solving", "_models.py")],
)

P(
    "C52",
    "Suspicious, deprecated and experimental use warns, ordinary use does not",
    "Accepted input that is incomplete or needless (missing inputs, outputs "
    "or factors, links without two of each, nonconvex investments without "
    "need, default discount rate) gives a SuspiciousUsageWarning, deprecated "
    "arguments, methods and overlong series a FutureWarning or "
    "DeprecationWarning, negative minimum flows, periods, typical periods and "
    "cost results an ExperimentalFeatureWarning. Anything else gives none of "
    "these.",
    ["inputs"],
    "all combinations of present, missing, old and new arguments, and whole "
    "systems",
    "The tests look for a few warnings of single arguments and silence them "
    "otherwise; what must stay quiet is hardly looked at.",
    ["flows/_flow.py", "_options.py", "_helpers.py", "components/_link.py",
     "_energy_system.py", "_results.py"],
    [("arguments of flows", "flows/_flow.py"),
     ("missing parts", "_helpers.py"),
     ("time axes", "_energy_system.py")],
)

DIRECT = (
    "property-based testing (Hypothesis): generated values and "
    "specifications against an independent model of the result"
)
TECH = {p: DIRECT for p in (
    "C30", "C31", "C32", "C33", "C34", "C39", "C40", "C41", "C42", "C52")}
TECH["C34"] = (
    "property-based testing with injected outcomes of the solver (stand-in "
    "solver) and real solvers, against the documented reaction"
)
TECH["C35"] = TECH["C46"] = (
    "property-based testing (Hypothesis): generated energy systems solved "
    "through the public API, differential against a reference model solved "
    "independently"
)
TECH["C36"] = TECH["C37"] = (
    "metamorphic property-based testing (Hypothesis): a generated system and "
    "a changed description of it must give equivalent models"
)
TECH["C38"] = "round-trip property-based testing (Hypothesis)"
TECH["C47"] = (
    "stateful property-based testing (Hypothesis): generated sequences of "
    "operations with invariants on model and parameters"
)

TECH["C49"] = (
    "property-based testing (Hypothesis): generated systems, the named "
    "expressions of the model evaluated at its optima and compared with the "
    "shares of a reference model"
)

TECH["C50"] = (
    "metamorphic property-based testing (Hypothesis): generated systems with "
    "parts replaced by equivalent ones defined by a user must give an "
    "equivalent model"
)
TECH["C51"] = (
    "stateful property-based testing (Hypothesis): generated sequences of "
    "solving and adding limits, compared with a model built at once"
)

NOT_APPLICABLE = []

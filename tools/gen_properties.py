#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
I = "tti/indicators/"
BASE = I + "_technical_indicator.py"
SIM = "tti/utils/trading_simulation.py"
VAL = "tti/utils/data_validation.py"
PRE = "tti/utils/data_preprocessing.py"
PLOT = "tti/utils/plot.py"
PROPS = I + "properties/indicators_properties.py"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

PORT = [{"name": "positions", "meaning": "per day: none/long/short, open/closed, entry exposure", "where": SIM},
        {"name": "simulation rows", "meaning": "signal, action, stock_value, exposure, portfolio_value, earnings, balance per day", "where": SIM}]

p("C01", "Simulated positions open on signals and close only in profit",
  "On every simulated day after the first, all and only the open positions that are in profit at that day's close are closed (long: entry price strictly below the close; short: entry exposure strictly above short_exposure_factor times the close), and then the day's signal opens at most one new position: buy opens one long at the close, sell opens one short with exposure short_exposure_factor times the close, hold opens nothing. A buy or sell that opens its position is recorded with action long or short, every other day with action none. On the first day no position is ever opened or closed.",
  ["histories", "inputs"], "every history of signals and close prices of any length, every max_exposure and short_exposure_factor",
  "The tests drive a handful of fixed rounds by writing private arrays and run real indicators on one price file; the order of closing versus opening, equality at the entry price, and several open positions of both kinds are not distinguished.",
  [SIM], [("closing open positions", SIM + " _closeOpenPositions"), ("opening from the signal", SIM + " _processSignal / runSimulationRound")],
  ["TradingSimulation.runSimulationRound + closeSimulation", "getTiSimulation()[0]"], PORT)
p("C02", "Exposure never exceeds max_exposure because of an opened position",
  "When max_exposure is given, a position is opened exactly if the exposure remaining after that day's closings plus the new position's exposure is not greater than max_exposure; otherwise the signal is recorded with action none and nothing but closings changes. Hence the recorded exposure never exceeds max_exposure on any day. When max_exposure is None no signal after the first day is ever ignored.",
  ["histories", "configurations"], "every signal/price history, every cap including caps that equal the needed exposure exactly",
  "The tests use one cap per run and compare a few rows; equality with the cap, and the cap after simultaneous closings, are never reached.",
  [SIM], [("cap test before opening", SIM + " _processSignal")], ["rows exposure / open_trading_action"], PORT)
p("C03", "The simulation ledger balances every day",
  "On every simulated day the row shows the day's close as stock_value; exposure equal to the sum of the entry exposures of the positions still open; portfolio_value equal to the close times (open longs minus open shorts); earnings equal to the previous earnings plus exactly the profit of the positions closed that day (long: close minus entry, short: entry price minus close); and balance equal to portfolio_value plus earnings. The first day's row has zero exposure, portfolio value, earnings and balance. Nothing else ever changes these amounts, so earnings never decrease.",
  ["histories", "inputs"], "every signal/price history, cap and short factor",
  "Accumulated amounts depend on the whole history; the tests check isolated rounds with hand-set state.",
  [SIM], [("row bookkeeping", SIM + " _closeOpenPositions, _processSignal, _calculatePortfolioValue")], ["simulation DataFrame"], PORT)
p("C04", "Simulation statistics agree with the simulation rows",
  "The returned statistics are exactly derived from the returned rows and positions: number of simulated days; number of buy and of sell signals; how many of each were recorded with action none; the last simulated day's stock value, exposure, portfolio value, earnings and balance (rounded to two decimals); and the numbers of long and short positions still open at the end. This also holds when fewer days are simulated than there are input rows, and with no day simulated all are zero.",
  ["histories"], "every simulated history, complete or partial",
  "Tests compare statistics of a few runs, with the same number of rows as days and few ignored signals.",
  [SIM], [("statistics", SIM + " _calculateSimulationStatistics")], ["closeSimulation()[1]", "getTiSimulation()[1]"])
p("C05", "Simulation arguments are accepted or refused as documented",
  "A simulation starts exactly when the close prices are a non-empty, date-indexed DataFrame with a numeric close column (any letter case) whose dates are the indicator's input dates in any order, max_exposure is None or a number greater than zero, and short_exposure_factor is a number not smaller than 1.0. Otherwise it raises the documented error: NotValidInputDataForSimulation for the close prices, WrongValueForInputParameter for an out-of-range number (also a not-a-number), WrongTypeForInputParameter for a value that is no number (booleans and numpy integers are left open). Missing close values are filled like input data, and row order does not matter.",
  ["inputs", "configurations"], "all combinations of argument kinds and boundary values",
  "Tests try one bad value per argument; boundaries (0, 1.0, just below), combinations and reordered or partial indexes are not covered.",
  [SIM, VAL], [("argument validation", SIM + " _validateSimulationArguments")], ["TradingSimulation(...)", "getTiSimulation(...)"])
p("C06", "A simulated day's signal never depends on later days",
  "In a simulation, the signal recorded for day i is the signal the indicator gives when its input and indicator data end at day i; values of later days have no influence on it. For every indicator whose past values do not change when data are appended, it is therefore the signal of the same indicator built only from the data up to day i, and the last day's signal equals getTiSignal(). Every row of the indicator is simulated once, in date order.",
  ["histories", "inputs"], "every indicator, parameter set, data set and day",
  "The tests only check that a simulation of the full data set yields stored numbers; a look-ahead of one day changes nothing they assert for most indicators.",
  [BASE, SIM], [("truncation per round", BASE + " getTiSimulation")], ["getTiSimulation()[0]['signal']"])
p("C07", "Running a simulation leaves the indicator unchanged and is repeatable",
  "After getTiSimulation returns, is refused, or is interrupted before its end (KeyboardInterrupt), getTiData, getTiValue, getTiSignal and the graph give what they gave before, and the close prices passed in are not modified. Repeating the simulation with the same arguments gives the same rows and statistics, whatever was called in between and whatever other simulations were run.",
  ["histories", "crash_points"], "every sequence of calls around one or several simulations, with any arguments, completed, refused or interrupted at any call",
  "The tests run one simulation per indicator object and look at nothing afterwards.",
  [BASE, SIM], [("restoring full data after the rounds", BASE + " getTiSimulation"), ("private copy of close values", SIM)], ["all public methods after getTiSimulation"])
p("C08", "Results do not depend on call order or on other indicator objects",
  "What an indicator object returns from getTiData, getTiValue, getTiSignal, getTiGraph and getTiSimulation is determined by its own constructor arguments alone. No call on it, on another object of the same or another indicator, and no construction (successful or refused) of another object changes it, and results that were already returned are not changed by later calls.",
  ["histories", "schedules"], "every interleaving of constructions and calls on several objects sharing input frames",
  "Each test makes one object and calls methods once, in one order.",
  [BASE, VAL], [("per-object input and indicator data", BASE + " __init__")], ["sequences of public calls"])
p("C09", "getTiValue returns the row of the requested date or None",
  "getTiValue(date) returns, as a list in column order, exactly the values that getTiData holds for that date, for a single date given as string, datetime or Timestamp (dates unique, without time zone); without a date it returns the values of the most recent date. It returns None for every date that is not in the data and for a value that is no date, and never raises.",
  ["inputs"], "every indicator, every date in and around the data, every date representation",
  "Tests look up one existing and one missing date on one file.",
  [BASE], [("lookup by label", BASE + " getTiValue")], ["getTiValue"])
p("C10", "Row order, column order, column case and extra columns do not matter",
  "Indicator values, signals and simulations depend only on the set of (date, required value) pairs of the input: permuting rows or columns, changing the letter case of column names, or adding columns the indicator does not need (numeric or not, with missing values or not; not a second spelling of a required one) changes nothing. The indicator data are indexed by the input dates in ascending order.",
  ["inputs", "configurations"], "every permutation and decoration of every input, for every indicator",
  "Tests read one CSV in one row order with one column order; one test checks that unneeded columns are dropped.",
  [VAL, BASE], [("normalization", VAL + " validateInputData")], ["getTiData", "getTiSignal", "getTiSimulation"])
p("C11", "Missing input values are filled forward, then backward, in date order",
  "With fill_missing_values left True every missing input value is replaced by the last earlier present value of its column, and leading missing values by the first later present one, in ascending date order, never across columns; present values are never altered. The indicator then equals the indicator of the already filled data. With False, the values are left missing, the indicator is computed from the unfilled data, and no error is raised because of them.",
  ["inputs"], "every pattern of missing values in every column and row order",
  "Tests use two patterns on one file and compare with precomputed results.",
  [PRE, VAL], [("ffill then bfill after sorting", PRE + " fillMissingValues")], ["fillMissingValues", "getTiData", "getTiGraph"])
p("C12", "The caller's data are never modified and never shared",
  "Constructing an indicator, calling any of its methods and running simulations leave the caller's input DataFrame and close-price DataFrame exactly as they were (values, column names and order, row order, index). Conversely, changing those DataFrames afterwards, or DataFrames that were returned to the caller, does not change anything the indicator returns later.",
  ["histories", "inputs"], "every input frame (any row order, column case, extra columns, missing values), every call sequence",
  "No test compares the caller's frame before and after.",
  [VAL, PRE, SIM, BASE], [("copies made while normalizing", VAL), ("copy of close values", SIM)], ["caller's DataFrame after each call"])
p("C13", "Unusable input data are refused with the documented error",
  "Constructing any indicator raises WrongTypeForInputParameter when input_data is not a DataFrame, TypeError when its index is not a DatetimeIndex, and ValueError when it is empty or lacks a required column or a required column is not numeric; a fill_missing_values that is not a bool raises WrongTypeForInputParameter. A frame with the required numeric columns is never refused for another reason than too few rows, whatever further columns it has.",
  ["inputs", "configurations"], "every indicator, every required column missing or non-numeric, all input kinds and their combinations",
  "Tests try one defect per indicator on one column.",
  [VAL, BASE], [("validation", VAL + " validateInputData")], ["constructors"])
p("C14", "Indicator parameters are accepted exactly in their documented domain",
  "Every indicator accepts a parameter value exactly if it has the documented type and lies in the documented domain (for example period > 0, or short period smaller than long period), raising WrongTypeForInputParameter for a wrong type and WrongValueForInputParameter for a value outside the domain. Accepted parameters take effect: leaving a parameter out means its documented default, and positional order is as documented. (Booleans and numpy numbers are left open.)",
  ["configurations"], "every parameter of every indicator, boundary values, wrong types, combinations of parameters",
  "Tests try one or two wrong values per indicator, not each boundary and combination.",
  [I + "*.py"], [("constructor checks", I + "*.py __init__")], ["constructors"])
p("C15", "Too little data raises NotEnoughInputData, enough data never does",
  "Each indicator requires a minimum number of data rows that is determined by the indicator and its parameters; with fewer rows construction raises NotEnoughInputData and with that many or more it succeeds, whatever the values in the data. Indicators without such a minimum accept any non-empty data.",
  ["inputs", "configurations"], "every indicator, parameter set and row count around the minimum",
  "Tests try one row count below the minimum for some parameter values.",
  [I + "*.py"], [("row count checks", I + "*.py _calculateTi")], ["constructors"])
p("C16", "Indicator data have one rounded row per input date",
  "getTiData returns a DataFrame whose index is the input dates in ascending order (the Detrended Price Oscillator omits its last period/2 + 1 dates), with the indicator's documented columns in documented order. Values are numbers rounded to four decimals (Market Facilitation Index: ten; accumulation/distribution line: whole numbers; on balance volume: the sum of volumes as they are), and are missing exactly for the rows for which the indicator's formula is not defined, such as its warm-up rows.",
  ["inputs", "configurations"], "every indicator, parameter set, data length and content",
  "Tests compare one parameter set on one file; other periods' warm-up rows and column labels are not checked.",
  [I + "*.py"], [("result construction", I + "*.py _calculateTi")], ["getTiData"])
p("C17", "Appending data never changes past indicator values",
  "For every indicator except Fibonacci Retracement, building it from the first k days of data gives, for those days, the same values as building it from all the data (for the Detrended Price Oscillator: for those of the days it reports). In particular no past value depends on later prices or volumes.",
  ["histories", "inputs"], "every indicator, parameter set, data set and every k",
  "Tests build each indicator once, on all data.",
  [I + "*.py"], [("causal windows and recursions", I + "*.py _calculateTi")], ["getTiData on prefixes"])
p("C18", "Bounded oscillators stay in range and bands stay ordered",
  "For valid market data (positive prices and volumes, low <= open, close <= high) the values that are present stay in their range: RSI, RMI, IMI, RVI, stochastics, Ultimate Oscillator, +DI, -DI, DX, ADX and ADXR in 0..100, Williams %R in -100..0, Chande, stochastic momentum and swing index in -100..100, Chaikin money flow in -1..1, vertical horizontal filter in 0..1, standard deviation and average true range not negative. Bands keep their order (Bollinger lower <= middle <= upper, envelopes, price channel and projection bands lower <= upper, Fibonacci levels falling), Parabolic SAR stays within the price range of the data, and the transforms (typical, median and weighted price) stay between low and high.",
  ["inputs", "configurations"], "every valid data set and parameter set",
  "Tests see one data set; extreme moves, flat stretches and small periods are not covered.",
  [I + "*.py"], [("formulas", I + "*.py _calculateTi")], ["getTiData"])
fam = {
 "C19": ("Moving averages and their differences follow their definitions", "Moving Average (all five types), Double and Triple Exponential Moving Average, Wilder's Smoothing, MACD, Price Oscillator, Volume Oscillator, Envelopes, Detrended Price Oscillator and Qstick"),
 "C20": ("Momentum and range oscillators follow their definitions", "Momentum, Price Rate of Change, Volume Rate of Change, Performance, Chande Momentum Oscillator, RSI, RMI, Relative Volatility Index, Intraday Momentum Index, Stochastic Oscillator, Stochastic Momentum Index, Williams %R, Ultimate Oscillator, Commodity Channel Index, Vertical Horizontal Filter, Range Indicator and Swing Index"),
 "C21": ("Volume indicators follow their definitions", "Accumulation Distribution Line, Chaikin Money Flow, Chaikin Oscillator, Ease of Movement, Klinger Oscillator, Market Facilitation Index, Negative and Positive Volume Index, On Balance Volume and Price and Volume Trend"),
 "C22": ("Volatility, channel and price-transform indicators follow their definitions", "Average True Range, Bollinger Bands, Standard Deviation, Volatility Chaikins, Mass Index, Price Channel, Fibonacci Retracement, Ichimoku Cloud, Typical, Median and Weighted price and Williams' Accumulation/Distribution"),
 "C23": ("Regression and path-dependent indicators follow their definitions", "Linear Regression Indicator and Slope, Time Series Forecast, Forecast Oscillator, Projection Bands, Projection Oscillator, Parabolic SAR and Directional Movement Index"),
}
for k, (t, names) in fam.items():
    p(k, t, names + " have, for every date, the value that the indicator's formula gives for the data up to that date and the given parameters (up to the documented rounding of the result). This includes unusual but valid data: flat prices, gaps, equal consecutive prices or volumes, zero denominators, and every admissible parameter value.",
      ["inputs", "configurations"], "every data set and admissible parameter set",
      "Tests compare one or two parameter sets on one smooth price file with stored values; other periods, ties, flat stretches and long recursions are not covered.",
      [I + "*.py"], [("formulas", I + "*.py _calculateTi")], ["getTiData", "getTiValue"])
p("C24", "Crossing signals fire exactly when a line crosses a level or another line",
  "For indicators whose signal is a crossing (of zero, of fixed overbought/oversold levels, of a second line or moving average, or of the price), buy or sell is returned exactly on the day on which the last two indicator rows lie strictly on opposite sides in the direction the indicator's rule states, and hold otherwise. Touching the level without passing it, missing indicator values on those rows and too few rows give hold.",
  ["inputs", "histories"], "every pair of consecutive rows, including rows on the level, and every price history",
  "Tests only check that the signal is one of the three possible values.",
  [I + "*.py"], [("decision rules", I + "*.py getTiSignal")], ["getTiSignal", "getTiSimulation()[0]['signal']"])
p("C25", "Position and band signals compare the latest row as the rule states",
  "For indicators whose signal compares the latest values only (close against a band, an average or the indicator; the indicator against a threshold), buy, sell or hold is exactly what the rule states for the latest row, with ties resolved as the rule's strictness states. A missing indicator value on that row and too few rows give hold.",
  ["inputs", "configurations"], "every latest row including ties with the bands or thresholds, every parameter that sets a threshold",
  "Tests only check that the signal is one of the three possible values.",
  [I + "*.py"], [("decision rules", I + "*.py getTiSignal")], ["getTiSignal", "getTiSimulation()[0]['signal']"])
p("C26", "Pattern signals require the complete multi-day pattern",
  "For indicators whose signal needs a pattern over several rows (three or four consecutive rising or falling values, divergence between price and indicator, a reversal bulge, a cloud breakout, confirmation by another average, or the last overbought/oversold event), buy or sell is returned exactly when the complete pattern is present and hold otherwise. When several rules apply, the first in the indicator's stated order decides.",
  ["inputs", "histories"], "every window of indicator rows and prices",
  "Tests only check that the signal is one of the three possible values.",
  [I + "*.py"], [("decision rules", I + "*.py getTiSignal")], ["getTiSignal", "getTiSimulation()[0]['signal']"])
p("C27", "Every constructed indicator always has a signal",
  "For every indicator that could be constructed, at the end of every prefix of its data, getTiSignal returns exactly one of ('buy', -1), ('hold', 0), ('sell', 1) and never raises; with a single row of data, or while all its values are missing, no crossing or pattern rule can fire. Signals are deterministic.",
  ["inputs", "histories", "configurations"], "every indicator, parameter set, data length from the minimum upwards, degenerate data included",
  "Tests call getTiSignal on the full sample file for a few lengths.",
  [I + "*.py"], [("length guards", I + "*.py getTiSignal")], ["getTiSignal", "getTiSimulation"])
p("C28", "The indicator graph shows the indicator and its price input",
  "getTiGraph draws one line per documented price input column and one per indicator column, in that order, labelled with the column name, each with exactly the dates and values of the (normalized) input or indicator data; in one panel, or with indicator lines in a second panel below the price for indicators defined that way. Title and axis label are the indicator's. Drawing works for every constructed indicator, with missing values too, and changes no data.",
  ["inputs", "configurations"], "every indicator, parameters and data",
  "Tests only check that a graph object is returned for one data set.",
  [BASE, PLOT, PROPS], [("graph assembly", BASE + " getTiGraph"), ("line drawing", PLOT + " linesGraph")], ["matplotlib figure"])
p("C29", "The simulation graph shows the simulated close price, exposure and balance",
  "The graph returned by a simulation has three panels which plot, against the consecutive transaction number, exactly the stock_value, exposure and balance columns of the returned simulation rows, labelled close_price, exposure and balance, titled with the indicator's name. It does so for every history and changes no data.",
  ["histories"], "every simulation",
  "Tests only check the type of the returned object.",
  [BASE], [("simulation graph", BASE + " _getSimulationGraph")], ["matplotlib figure"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))

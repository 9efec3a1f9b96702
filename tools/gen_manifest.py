"""Writes MANIFEST.json and sim/meta.json from the table below (run by hand after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ['Trusts CPython, numpy, scipy, pandas and dateutil; the simulator and the reference models in /verif/sim.',
          'A clean result covers only the seeds run; the space of histories is sampled, not enumerated.']
T = {}


def add(pid, rule, real, stub, assume, note):
    T[pid] = dict(rule=rule, real=real, stub=stub, assumptions=COMMON + assume, note=note)


EV = 'Simulated runs of the real code; every choice (operations, faults, nesting, thread schedule) is drawn from one seed. '

add('C01', 'Operations: generate a path (any process kind, stored or not), disturb the global generator, run generations nested in drift/diffusion/rate functions or on scheduled threads.',
    ['brownian_motion', 'base_processes', 'geometric_brownian_motion', 'short-rate models', 'numpy generator'], ['drift, diffusion and rate functions (callbacks of the simulation)', 'thread scheduler'],
    ['Reference shocks: numpy RandomState(seed).standard_normal, scaled and correlated by an own Cholesky factor.'],
    'Reference paths are recomputed independently and compared for every generation under interleaving, nesting, failing callbacks and different PYTHONHASHSEEDs.')
add('C02', 'Operations: generate (stored or not), change the time step, evaluate inside, at and outside grid times, failing and nested drift/diffusion functions, threads on distinct processes that share a driver.',
    ['brownian_motion', 'base_processes', 'geometric_brownian_motion', 'short-rate models'], ['drift, diffusion and rate functions', 'thread scheduler'],
    ['The time step is not changed from inside the same process\'s own generation callback.'],
    'A model of (grid, path) per process decides every evaluation after every step of the history.')
add('C03', 'Operations: generate, change the time step, request integrals, accrual and discount curves on default, custom, late and outside times, with failing or nested rate functions and threads requesting from one model.',
    ['base_short_rate_model', 'vasicek models', 'base_processes', 'base_curve'], ['rate transformation, drift and diffusion functions', 'thread scheduler'],
    ['Integration oracle: trapezoids over the requested times of the reference path.'],
    'Every result, held curve and held integral is compared with a reference built from the current path.')
add('C04', 'Operations: build, evaluate with adjustments, reset all knots or one (valid, malformed, failing iterable, failing interpolation), mutate the caller\'s list, threads evaluating or resetting distinct curves.',
    ['base_curve', 'scipy.interpolate'], ['adjustment functions', 'knot iterables', 'failure of scipy interp1d', 'thread scheduler'],
    ['Spline values between knots: scipy interp1d built afresh from the model\'s knots.',
     'When a malformed reset is accepted by the code, the curve is not judged any further in that run.'],
    'A reference curve decides every evaluation, and all knots and ends are re-read after every operation.')
add('C05', 'Operations: present values and conversions under adjustments that fail, nest other valuations and resets of other curves, or run on scheduled threads; knot resets; held discount curves.',
    ['yield_curve', 'base_curve', 'us_treasury_instruments', 'base_cashflow', 'scheduler', 'key_rate'], ['adjustment functions', 'one instrument kind (a user instrument)', 'thread scheduler'],
    ['Discount factors between two days of a continuously-compounded curve are those of its daily grid.',
     'The knots of a curve are not reset from inside a valuation on that curve.'],
    'Every value is compared with a reference valuation of the instrument\'s own future payments, every held discount curve re-read after each step.')
add('C06', 'Operations: derivative, PV01 and ladder with any bump sizes, valuations failing at the k-th call, nested and threaded computations on the same key rates, retries, knot resets.',
    ['yield_curve', 'key_rate', 'risk_metrics', 'base_portfolio', 'us_treasury_instruments', 'base_curve'], ['the valued asset is wrapped to cross a fault point', 'thread scheduler'],
    ['Bump sizes are not set from inside a computation on the same key rate.'],
    'Risk numbers are compared with reference revaluations; key rates, collections and curves are re-read after every step.')
add('C07', 'Operations: build from any iterable, assign, delete, insert, append, extend, add, in-place add, slice, set bumps, rejected edits, iteration in progress; some runs repeated under eight PYTHONHASHSEEDs.',
    ['key_rate', 'risk_metrics'], ['key-rate iterables', 'thread scheduler'], [],
    'A sorted-list model of dates, neighbours and bumps is compared with every collection alive after each step.')
add('C08', 'Operations: global and bootstrap calibration from lists, shuffles and generators, with the root finder raising, giving up or returning a wrong point, and an instrument failing at the k-th valuation; later calibrations repeated.',
    ['yield_curve factory', 'base_curve', 'us_treasury_instruments', 'scipy.optimize.root when no fault is injected'], ['failures of scipy.optimize.root', 'failing instruments', 'thread scheduler'],
    ['Repricing is accepted within 1e-5 of the market price.', 'Bootstrap is decided for linear interpolation only.'],
    'Every returned curve is repriced by a reference valuation; failures must surface as errors.')
add('C09', 'Operations: assign cashflows under new and old keys, add payments (equal dates, unset amounts), slices, views, valuations on failing curves, iteration in progress.',
    ['base_cashflow', 'base_curve'], ['a curve wrapper that can fail', 'payment iterables', 'thread scheduler'], [],
    'Ordered reference map and lists compared with all views after each step.')
add('C10', 'Operations: build swaps, generate legs stored or not, implied rate, present value, with the market-data function failing at the k-th fixing, nested work and threads on several swaps.',
    ['interest_rate_swap', 'base_cashflow', 'scheduler', 'base_curve'], ['market-data (fixing) function', 'thread scheduler'], [],
    'Legs and values are compared with reference payments; every date asked of the rate function is checked.')
add('C11', 'Operations: portfolio values with failing and nested assets, many open iterators over portfolios, ladders, cashflows and collections advanced in arbitrary interleavings and on threads, key-rate conversion.',
    ['base_portfolio', 'risk_metrics', 'base_cashflow', 'key_rate', 'us_treasury_instruments'], ['user asset that can fail', 'thread scheduler'], [],
    'Sums and element sequences are compared with reference lists.')
add('C12', 'A calendar clock steps one day at a time over months to years (jumps included) in the US and in random custom calendars whose observation rules may fail; scheduler answers are compared with the days met.',
    ['scheduler', 'holidays'], ['holiday observation rules of custom calendars', 'clock'], ['The US calendar is the one documented in the holidays module.'],
    'Every scheduler answer is compared with day-by-day stepping of an independent calendar.')
add('C13', 'Operations: queries of bonds, corporate bonds, swaps and Vasicek-type models at random dates, repeated, nested in callbacks, failing, and on threads sharing one object.',
    ['us_treasury_instruments', 'corporate_bond', 'interest_rate_swap', 'vasicek_model', 'doubly_mean_reverting_vasicek', 'trebly_mean_reverting_vasicek', 'stochastic_market_price_of_risk'], ['thread scheduler', 'failures of scipy.optimize.root'],
    ['Oracle: the same query asked alone of a freshly built equal object.'],
    'Every answer equals that of a fresh object, and public attributes keep their values.')
add('C14', 'Operations: Monte Carlo default times with simulated uniform draws, hazard functions that fail, nest simulations or run on threads, clock jumps.',
    ['default_models', 'scheduler'], ['random generator in half of the runs', 'performance clock', 'hazard function', 'thread scheduler'], [],
    'Default times are recomputed from the recorded draws.')
add('C15', 'Operations: generate paths (stored or not), ask closed forms from the start or a later purchase date, simulate 40 or 60 seeded paths and compare their moments with the closed forms, nested and failing in any accrual computation, and on threads.',
    ['vasicek_model', 'doubly_mean_reverting_vasicek', 'trebly_mean_reverting_vasicek', 'stochastic_market_price_of_risk', 'base_short_rate_model', 'base_processes', 'brownian_motion'], ['thread scheduler'],
    ['The closed forms are also compared with matrix exponentials of the model\'s linear law (relative 1e-7).',
     'Samples use reference paths of known law as control variates; acceptance is eight standard errors plus 1.25 times the exact step-size error. Seeds are fixed, so the verdict on one tree is constant.',
     'Multivariate models are placed on independent shocks, which their closed forms assume.'],
    'Monte Carlo agreement of simulated and closed-form rates, from fixed seeds.')
add('C16', 'Operations: payment schedules of level-pay loans under random prepayment histories (early, repeated, huge, beyond maturity), several schedules from one loan, failing payment iterables.',
    ['loan', 'day_count_calculator', 'scheduler'], ['extra-payment mapping of the simulation'], [],
    'Each period is checked against the contractual recursion and conservation of principal.')
add('C17', 'Operations: generate paths (stored or not), ask any analytic of a model from any purchase date on its path, build riskless portfolios, sample yields over 40 paths; nested and failing in any accrual computation, on threads, with sibling models.',
    ['vasicek_model', 'doubly_mean_reverting_vasicek', 'trebly_mean_reverting_vasicek', 'stochastic_market_price_of_risk', 'base_short_rate_model', 'base_processes', 'brownian_motion'], ['thread scheduler'],
    ['Oracle: matrix exponentials of the linear law dx = K(m - x)dt + S dW, r = b + <g, x>, from the state of the reference path (relative 1e-6).',
     'Hedges whose defining system has a condition number above 1e7 are not judged.'],
    'Every answer is compared with one independent law of the model\'s states, whatever was asked, generated or failed before.')

add('C23', 'Operations: minimum-variance, utility and frontier requests (feasible or not, shorts or not) to several optimisers, with the solver giving up or failing, an objective evaluation failing at the k-th call, nested requests and threads; repeated requests.',
    ['portfolio_optimization', 'scipy.optimize.minimize when no fault is injected'], ['failures of scipy.optimize.minimize', 'the covariance matrix is wrapped so that its products are fault points', 'thread scheduler'],
    ['Optimality is accepted within 2e-6 in variance or utility.', 'An error on a feasible request is accepted when the solver itself reported that it found nothing.'],
    'Weights are compared with the exact optimum over all supports, and with a fresh optimiser\'s; failures must surface as errors.')

add('C20', 'A calendar clock steps, jumps and is set back through days, month and year ends and parts of days; intervals between instants it has shown are measured under every convention, in any order, split at any instant, as dates and as midnights, reversed, under unknown conventions and on threads.',
    ['day_count_calculator'], ['calendar clock', 'thread scheduler'],
    ['Actual conventions are compared with exact rational arithmetic; 30/360 with its published definition between midnights, and part days as shares of their own day.'],
    'Every fraction is compared with an independent definition; intervals laid end to end must add up.')
add('C21', 'A clock walks through the lives of treasury and corporate bonds; accrued interest, prices, yields, durations, convexities and received payments are asked for around coupons and settlements, with the yield search giving up or failing, accruals failing at any point, nested questions and threads.',
    ['us_treasury_instruments', 'corporate_bond', 'day_count_calculator', 'scheduler', 'base_cashflow', 'scipy.optimize.root when no fault is injected'], ['failures of scipy.optimize.root', 'failures of day-count computations', 'calendar clock', 'thread scheduler'],
    ['Own coupon dates, settlement, accruals, bisection for the yield and analytic derivatives.', 'A yield is demanded when the own one lies in [-5%, 50%] and at least 30 days remain; otherwise an error is accepted.',
     'Zero-coupon bonds are asked only for prices, accrued interest and received payments.'],
    'Every answer of a bond is compared with one reference bond; failures must surface as errors.')

NA = [
]


def main():
    checks, meta = [], {}
    for pid, t in T.items():
        if not os.path.exists(os.path.join(HERE, 'sim', pid.lower() + '.py')):
            continue
        meta[pid] = {k: t[k] for k in ('rule', 'real', 'stub', 'assumptions')}
        checks.append({'property': pid, 'quick_cmd': f'bash check.sh {pid}', 'thorough_cmd': f'VERIF_TIER=thorough bash check.sh {pid}',
                       'evidence_file': f'evidence/{pid}.json', 'technique': 'deterministic simulation with fault injection (seeded search, reference-model oracle)',
                       'level': 'exploration', 'level_note': t['note'] + ' Seeded sampling, not enumeration; trusts the reference model and the libraries. ' + ' '.join(t['assumptions'][2:])})
    with open(os.path.join(HERE, 'sim', 'meta.json'), 'w') as f:
        json.dump(meta, f, indent=1)
    claimed = {c['property'] for c in checks}
    na = NA + [{'property': p, 'reason': 'check not built yet'} for p in T if p not in claimed]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'bash check.sh --selftest', 'checks': checks, 'not_applicable': na,
                   'notes': 'No hooks in /repo: the seams are the callbacks the code takes, its iterables, scipy entry points, the random generator and the clock, '
                            'replaced from /verif in the forked process of each run. Replay: bash check.sh --replay FILE.'}, f, indent=1)
        f.write('\n')


main()

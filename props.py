"""Which harnesses decide which property, and how much they run. Titles and statements: properties.jsonl."""
OP = ['-O1']


def cpp(src, quick, thorough=None, **kw):
    d = dict(src=src, quick=quick, thorough=thorough or quick * 15)
    d.update(kw)
    return d


def py(src, quick, thorough=None, **kw):
    return cpp(src, quick, thorough, kind='py', **kw)


def mem(src, mode, quick, san='asan1', **kw):
    """A harness of another property under the memory sanitizers; what it says about that property is ignored."""
    return cpp(src, quick, mode=mode, san=san, memory_only=src != 'mem.cpp', name='%s-%s' % (src[:-4], mode), **kw)


PROPS = {
    'F02': dict(jobs=[cpp('corr.cpp', 8000)],
                rule='random groups of 0-5 targets (1-4 components) and 0-4 reports around random origins, random limits, one or two consecutive corrections; non-trivial: at least one target and one report (signature: cluster shapes, hypothesis counts, pD)',
                floor=dict(targets_compared=5000, joint_clusters=500)),
    'F05': dict(jobs=[cpp('corr.cpp', 8000)],
                rule='as F02 with up to 7 reports; non-trivial: a scan with at least one report (signature: total birth weight, births)',
                floor=dict(births=5000, reports_without_birth=500)),
    'F07': dict(jobs=[cpp('corr.cpp', 8000)],
                rule='up to 9 targets and 9 reports scattered so that gating chains form; non-trivial: two or more objects (signature: cluster shapes)',
                floor=dict(joint_clusters=500)),
    'F09': dict(jobs=[cpp('corr.cpp', 6000), cpp('kal.cpp', 2000)],
                rule='groups wholly inside or outside the field of view, with and without reports; non-trivial: an unaffected, missed or outside-but-gated target (signature: existence values)',
                floor=dict(unaffected_targets=1000, missed_targets=1000, clear_of_view=2000)),
    'F01': dict(jobs=[cpp('hist.cpp', 1600)],
                rule='random histories of 4-16 insertions, predictions and corrections, 70% hostile (clutter 1e-15..1e8, dozens of joint targets, refuted certain targets, coincident and degenerate reports); every target inspected after every operation; non-trivial: targets were tracked (signature: existence values)',
                floor=dict(targets_checked=20000, births=3000, certain_targets_refuted=20)),
    'F04': dict(jobs=[cpp('hist.cpp', 2400)],
                rule='random histories; before/after snapshots of every prediction against the model in long double, intervals also predicted in 2-4 parts on a copy; non-trivial: predicted targets (signature: existence values)',
                floor=dict(targets_compared=5000, splits_compared=2000)),
    'F06': dict(jobs=[cpp('hist.cpp', 1400), cpp('corr.cpp', 5000)],
                rule='identity ledger over random histories, removals judged against the predicted state and against the exact posterior; non-trivial: identities handed out or targets kept',
                floor=dict(births=3000, removed_total=1000, targets_compared=2000)),
    'F10': dict(jobs=[cpp('hist.cpp', 6000)],
                rule='random queries between the operations of random histories, answers computed from a snapshot, regions touching box edges exactly, an undisturbed twin; non-trivial: queries made (signature: kinds and sizes)',
                floor=dict(queries=20000, proper_regions=5000, twin_targets=5000)),
    'B03': dict(jobs=[cpp('hist.cpp', 3000)],
                rule='stored boxes of every target and box of every report after every operation of random histories, against long-double geometry; non-trivial: boxes checked (signature: extents)',
                floor=dict(boxes=50000, report_boxes=10000, conversions=5000)),
    'S02': dict(jobs=[cpp('hist.cpp', 1600)],
                rule='12 region or point queries after every operation of random histories with up to several hundred targets, regions touching box edges exactly; non-trivial: signature of target counts',
                floor=dict(queries=50000, hits=50000)),
    'G01': dict(jobs=[cpp('geo.cpp', 4000)],
                rule='200 random points per case, biased to poles, equator, date line and the branch of the inverse, altitudes -5 km to 400 km; non-trivial: every point (signature: coordinates)',
                floor=dict(points=100000)),
    'G02': dict(jobs=[cpp('geo.cpp', 3000)],
                rule='100 random origins and points per case; non-trivial: every frame (signature: origin, offset)',
                floor=dict(frames=50000)),
    'B01': dict(jobs=[cpp('geo.cpp', 3000)],
                rule='100 random covariances per case: scales 1e-6..1e8, condition to 1e6, axis-parallel, diagonal and general directions; non-trivial: every covariance (signature: covariance, nstd)',
                floor=dict(covariances=50000)),
    'B02': dict(jobs=[cpp('geo.cpp', 4000)],
                rule='200 random pairs of (rotated, sheared, crossing, nested, identical) boxes and 1200 points per case; contact within 1e-6 of the size is not judged; non-trivial: every pair (signature: corners)',
                floor=dict(meeting_pairs=20000, disjoint_pairs=20000, points_inside=50000, aabb_contacts=10000)),
    'A01': dict(jobs=[cpp('lapm.cpp', 40000, hang=15)],
                rule='cost tables up to 48 rows (120 thorough): random, integer, negative, widely spread, constant, nearly tied, duplicated, sparse, Hall-violating, product and cluster-shaped, rows and columns shuffled, both storage orders; non-trivial: more than one row (signature: size, kind, minimum)',
                floor=dict(feasible=20000, infeasible=3000, max_rows=40)),
    'A02': dict(jobs=[cpp('lapm.cpp', 40000, hang=30)],
                rule='the same table families drawn to exhaustion (up to 12000 assignments) against brute-force enumeration, larger ones 300 draws; non-trivial: more than one draw (signature: size, kind, last cost)',
                floor=dict(draws=2000000, exhausted=10000)),
    'A03': dict(jobs=[cpp('lapm.cpp', 60000, hang=15)],
                rule='random graphs up to 300 nodes (sparse, chains, stars, cliques), links recorded from both ends in any order, some repeated; against union-find; non-trivial: more than two nodes (signature: size, shape, components)',
                floor=dict(nodes=500000, components=100000)),
    'F03': dict(jobs=[cpp('kal.cpp', 10000)],
                rule='random Gaussians of 2, 4 and 6 states with random linear sensors and mixtures of 1-40 components with the position sensor or one whose detection probability varies per component; one to three updates; non-trivial: every update (signature: evidence, distance)',
                floor=dict(gaussian_updates=50000, mixture_updates=100000, missed=20000)),
    'F08': dict(jobs=[cpp('kal.cpp', 6000)],
                rule='joins of 1-8 mixtures (labelled components, ties, zero weights, empty mixtures), sums, caps of 1, 3, 5, 20 and 200, moments of the results and of tracked targets; non-trivial: every join (signature: total, kept)',
                floor=dict(joins=30000, capped=3000, joins_reducing=10000, sums=30000, target_moments=5000)),
    'R02': dict(jobs=[cpp('kal.cpp', 5000)],
                rule='samples of random Gaussians, singular ones and mixtures, raw generators in one and four threads: whitened moments within 7-8 standard errors, Kolmogorov-Smirnov with 1e-12 false-alarm bound, shares within 6.5 standard errors and jointly unbiased; non-trivial: signature of the density and sample count',
                floor=dict(samples=10000000, mixture_samples=10000000, shares=20000, singular=1000)),
    'F11': dict(jobs=[cpp('score.cpp', 40000)],
                rule='0-60 targets and 0-60 true states (close, coinciding, clumped, mismatched), cut-offs 0.01..1e4, orders 1-6, given and derived origins; against exact assignment in long double, with the truth reshuffled; non-trivial: at least two of each (signature: scores)',
                floor=dict(scores=100000, large_sets=3000, mismatched=10000)),
    'F12': dict(jobs=[cpp('score.cpp', 16000)],
                rule='grids of 1-14 by 1-14 cells over regions inside, beside and around up to 6 mixture targets; every cell and the total within 6.5 standard errors of the exact probability, totals jointly unbiased; non-trivial: a target in the region (signature: total, shape)',
                floor=dict(grids=10000, cells_with_mass=20000, point_densities=50000)),
    'F13': dict(jobs=[cpp('meta.cpp', 60000)],
                rule='pairs of random histories: the second shifted in longitude, mirrored north-south, with reports reordered, or a combination; all targets, boxes, cluster partitions and birth shares compared after every operation; pairs whose outcome hangs on rounding are set aside; non-trivial: targets compared (signature: existence values)',
                floor=dict(targets=300000, corrections=60000, reports=100000)),
    'S01': dict(jobs=[cpp('rtree.cpp', 20000), cpp('rtree.cpp', 4000, san='asan')],
                rule='20 to 1100 insertions, removals (also of absent entries), clears, drains, saves and reloads per case on indexes of four node sizes; small, point-like, collinear, identical, huge and unbounded boxes, repeated entries; searches, early stops, counts and full iterations against a list; non-trivial: signature of the operations',
                floor=dict(searches=500000, removals=300000, absent_removals=50000, reloads=20000, early_stops=20000, max_entries=250)),
    'R01': dict(jobs=[cpp('pfm.cpp', 8000)],
                rule='densities of 1 to 5000 particles in 1-8 threads through 1-8 detections, misses, motions, resamplings and joins, every weight and particle recomputed; non-trivial: signature of the totals and operations',
                floor=dict(weights=5000000, copies=1000000, resamplings=2000, averaged_resamplings=100, corrections=4000, motions=1000)),
    'C01': dict(jobs=[cpp('thr.cpp', 2000, san='tsan', thorough=30000)],
                rule='random histories predicted and corrected in 1-8 threads (deterministic and sampling sensors, injected delays) while 1-3 other threads list, count, score, grid and print; particle densities and several trackers at once; every access seen by ThreadSanitizer, OpenMP synchronisation by Archer; non-trivial: signature of how queries overlapped operations',
                floor=dict(operations=8000, overlapping=2000, sampled_corrections=800, particle_updates=100000, delays=1000)),
    'C02': dict(jobs=[cpp('thr.cpp', 5000, so=[('plain.cpp', [])], workers=4, thorough=120000)],
                rule='the same random history in different numbers of threads (1-8, nested or not), with delays injected where the sensor is asked, or against a build without threading; everything compared after every operation; pairs whose outcome hangs on rounding are set aside; non-trivial: signature of the clusters and existence probabilities',
                floor=dict(targets=200000, thread_pairs=2000, without_threading=1000, delays=5000, dense_scans=100)),
    'C03': dict(jobs=[cpp('thr.cpp', 1200, workers=4, thorough=30000)],
                rule='histories of up to 40 operations in 1-8 threads while 1-3 threads ask ten fixed queries over and over; every answer must be that of a complete state overlapping the call and no older than the last one the caller saw; non-trivial: signature of the interleaving of queries and operations',
                floor=dict(answers=100000, overlapping=15000, other_queries=5000, operations=10000)),
    'M01': dict(jobs=[mem('mem.cpp', 'M01', 1500), mem('hist.cpp', 'F01', 200), mem('hist.cpp', 'S02', 500), mem('corr.cpp', 'F02', 1500), mem('score.cpp', 'F11', 15000), mem('score.cpp', 'F12', 3000),
                      mem('lapm.cpp', 'A01', 15000, hang=30), mem('lapm.cpp', 'A02', 2500), mem('pfm.cpp', 'R01', 800), mem('geo.cpp', 'B02', 500), mem('kal.cpp', 'F08', 100, san='asan')],
                rule='histories, queries, scoring, assignments, enumerations, particles, boxes and joins under AddressSanitizer, LeakSanitizer and UBSan; summaries, densities and scans copied, rearranged and read again after the tracker is gone; only sanitizer reports and crashes (and changed copies) count; non-trivial: signature of the results',
                floor=dict(kept_summaries=50000, densities_copied=20000, targets_freed=10000, operations=5000)),
    'M02': dict(jobs=[cpp('mem.cpp', 900, flags=['-DFILL']), cpp('mem.cpp', 160, mode='M02V', workers=8, name='memcheck', wrap=['valgrind', '-q', '--error-exitcode=99', '--leak-check=no'], nolimit=True, hang=600)],
                rule='histories with queries, assignments and enumerations, index operations and particle densities, each run in six processes from the same state whose fresh heap, freed heap and stack hold zeros, ones, 0x7f, random bytes and two ordinary numbers; every value bit-identical; smaller runs under valgrind; non-trivial: signature of the values',
                floor=dict(runs=4000, histories=400, indexes=50, particles=100, solvers=50, values=10000000, allocations_filled=5000000)),
    'P01': dict(jobs=[py('p01.py', 2400), py('p01.py', 160, san='asan1', mode='P01A', name='p01-asan')],
                rule='every field of every class assigned awkward numbers in random order and read back from the C++ object, pickled and copied six ways; random histories driven from Python next to a twin driven in C++ with the same numbers; after every operation lists, counts, queries, grids, scores and diagnostics against the C++ calls bit by bit; everything handed out compared again at the end, half the time after the tracker is gone; a share of it under AddressSanitizer; non-trivial: signature of the existence probabilities',
                floor=dict(assignments=8000, clones=20000, conversions=2000, operations=7000, summaries=20000, queries=20000, grids_with_mass=1500, scores=3500, twin_targets=20000, twin_births=8000, kept=25000)),
    'P02': dict(jobs=[py('p02.py', 1600)],
                rule='text of trackers after every operation of random histories (global and local frames), and of every printable kind of value with awkward numbers: strict JSON, every number to the printed precision; whole traces of 3-20 lines through the bundled viewer, whose titles, traces, labels and ellipses are read off the axes; non-trivial: signature of the values',
                floor=dict(parsed=100000, numbers=2500000, targets=60000, lines=6000, views=100, traces=3000, ellipses=6000, particle_views=100, pictures=5)),
    'P03': dict(jobs=[py('p03.py', 1000)],
                rule='covariances of scales 1e-3..1e3 and conditions to 1e8, singular, circular and axis-parallel ones, any number of standard deviations; the outlines drawn are measured; boxes, scans, tracks, grids and traces of random histories read off the axes; non-trivial: signature of the last covariance and the tracks',
                floor=dict(ellipses=15000, contours=10000, boxes=1200, reports=1500, tracks=1000, track_points=2500, traces=1200)),
    'P04': dict(jobs=[py('p04.py', 2400, env={'OMP_NUM_THREADS': '2'})],
                rule='up to 40 calls at a time on recording, slow and failing trackers in executors of 1-8 threads, gathered or one by one, a call that can only finish if the loop goes on, cancelled calls; real trackers with up to three askers during predictions and corrections, next to a twin driven in C++; density samples; track plots of histories with and without targets, read off the axes; non-trivial: signature of the order in which calls reached the tracker',
                floor=dict(async_calls=15000, errors_passed_on=3000, real_operations=1800, queries_in_flight=6000, density_samples=800, plots=400, cancelled=100, tracks=400)),
}
NOT_APPLICABLE = {}

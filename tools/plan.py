"""What each check builds and how many cases it runs."""


def make_plan(P, REPO, HERE):
    d = {}
    d["M01"] = P("h_math", 400, 6000, "Random rotation vectors, orders and column counts with log-uniform magnitudes from 0 to many turns and values around branch thresholds; non-trivial: vector not zero.")
    d["M02"] = P("h_math", 400, 6000, "Random group elements (angles near 0 and pi, K=1..5 columns of any size); non-trivial: rotation or columns differ from identity.")
    step = "Random configuration, state, covariance and contacts; one case drives the real estimator for 20-60 steps and compares every step with an extended-precision reference. Distinct: by the bits of the resulting state; non-trivial: the step changed the state."
    d["F01"] = P("h_filter", 600, 8000, step)
    d["F02"] = P("h_filter", 600, 8000, step)
    d["F03"] = P("h_filter", 400, 5000, "Two estimators, one per error convention, fed the same measurements from equivalent random states; means and mapped covariances are compared after every step. " + step)
    d["F04"] = P("h_filter", 400, 5000, "Two estimators, one rotated about gravity and translated, fed the same measurements; compared after every step. " + step)
    d["F05"] = P("h_filter", 500, 8000, step)
    d["F06"] = P("h_filter", 500, 6000, step)
    d["F07"] = P("h_filter", 300, 4000, "Random touchdown/lift-off histories over up to six legs; after every step the contacts, their positions, covariances and noises are compared with a model. Distinct: by the bits of the resulting state.")
    d["F08"] = P("h_filter", 180, 3000, "Long random runs (300-3000 steps) with manoeuvres, drop-outs, gaps, bursts and contact changes; every exposed state is validated. Distinct: by the bits of the state.")
    d["F09"] = P("h_filter", 500, 6000, "Random histories with bias estimation on and off; biases and their correlations are watched at every step.")
    d["S01"] = P("h_state", 600, 8000, "Random sources, thresholds, arrival orders, timestamps (late, early, equal, bursts, gaps); after every step queues, publications and the state are compared with a model. Distinct: by the bits of the state.")
    d["S02"] = P("h_state", 2500, 40000, "Random workloads with readers that keep, re-read and edit snapshots; every published state is compared with the estimator's state of that step and re-checked until the end. Distinct: by the bits of the published state.")
    d["S03"] = P("h_state", 6000, 90000, "Random settings, mounting, priors, static samples and queued measurements; the state after initialisation is compared with a reference. Distinct: by the bits of the initial state.")
    d["S04"] = P("h_state", 2500, 40000, "Random first sessions (contacts, backlogs, aborted initialisation) reset at a random point; the next session is compared bit for bit with a fresh estimator's. Distinct: by the bits of the state.")
    d["S05"] = P("h_state", 1800, 25000, "Random workloads run twice, interleaved with other instances, with other batching and with idle steps inserted; trajectories are compared bit for bit. Distinct: by the bits of the state.")
    d["S06"] = P("h_log", 350, 8000, "Random sessions, rates, resets and destruction moments with logging on and off; the files written are parsed and compared record by record with the published states. Distinct: by the bits of the logged records.")
    d["S07"] = P("h_state", 1800, 30000, "Random configurations with random subsets of settings left out, compared with the same values written out and with a reference; a deviation is attributed to a setting if another value of it explains the behaviour. Every shipped configuration is loaded. Distinct: by the bits of the state.")
    d["G01"] = P("h_gyro", 12000, 200000, "Random configurations, sources, streams and interleavings; every fused rate is compared with an extended-precision Kalman filter. Distinct: by the bits of the fused rates.")
    d["G02"] = P("h_gyro", 8000, 150000, "Random streams (late, future, equal times, bursts, resets), stepped with a model of the queues and run by the filter's own thread next to a producer. Distinct: by emitted samples and queue lengths.")
    kin = "Random joint configurations including zeros, multiples of pi/2 and far beyond joint limits. Distinct: by the bits of the joint vector; non-trivial: not all joints zero."
    d["K01"] = P("h_kin", 120000, 2000000, kin, need=("robots",))
    d["K02"] = P("h_kin", 120000, 2000000, kin, need=("robots",))
    d["K03"] = P("h_kin", 120000, 2000000, kin, need=("robots",))
    d["D01"] = P("h_data", 6000, 90000, "Random sequences of stores, copies, assignments and resets on several containers at once; after every operation every container is compared with a plain model of what was stored. Distinct: by the final contents.")
    wheel = [REPO + "/baselines/src/wheel_odometry/wheel_odometry.cpp"]
    sub, pub = (REPO + "/ROS/drift/src/communication/ros_%s.cpp" % x for x in ("subscriber", "publisher"))
    d["W01"] = P("h_wheel", 8000, 120000, "Random twist histories (planar, spatial, slow, fast, still), time steps, log rates and producer threads; the pose log written is parsed and compared with an extended-precision trajectory. Distinct: by the bits of the logged trajectory.", extra=wheel)
    d["R01"] = P("h_ros", 12000, 200000, "Random sets of 1-8 sources and messages (values, stamps, mountings, missing entries) delivered to the real subscriber over an in-process bus, one by one and by its spinner threads; after every message all queues are compared with what the message stands for. Distinct: by the bits of the measurements.", extra=[sub, pub], need=("robots",))
    d["R02"] = P("h_ros", 4000, 120000, "Random states, queue patterns and rates; the publisher's threads are granted turns one by one (or run freely next to a producer) and every published message is compared with the state taken for it. Distinct: by the bits of the published states.", extra=[sub, pub], need=("robots",))
    wrap = ["-Wl,--wrap=pthread_mutex_" + f for f in ("lock", "unlock")]
    conc = "Random deployments (sources, thread placement, bursts, resets, loggers, consumers, gyro filter, ROS bridge) run with real threads and random delays before, inside and after every lock. Distinct: by the order in which the threads' operations took effect; non-trivial: the estimator or filter ran."
    d["C01"] = P("h_conc", 150, 3000, conc, modes=("tsan",), extra=[sub, pub] + wheel + wrap, need=("robots",))
    d["C03"] = P("h_conc", 600, 12000, conc, extra=[sub, pub] + wheel + wrap, need=("robots",))
    # Sanitizers over the workloads of all parts: (tool, workload, cases quick, cases thorough, processes)
    progs = [("asan", w, q, 40 * q, 2) for w, q in (
        ("C02", 1200), ("M01", 60), ("M02", 60), ("F01", 40), ("F05", 40), ("F07", 40), ("F08", 8), ("F09", 40), ("S01", 60), ("S02", 120),
        ("S03", 500), ("S04", 100), ("S05", 40), ("S06", 40), ("S07", 150), ("G01", 800), ("G02", 500), ("K01", 4000), ("K03", 4000),
        ("D01", 700), ("W01", 500), ("R01", 1000), ("R02", 120), ("C03", 12))]
    progs += [("memcheck", w, q, 40 * q, 2) for w, q in (("C02", 100), ("S04", 8), ("S07", 6), ("D01", 60), ("F07", 2), ("G02", 30), ("K03", 60), ("W01", 10), ("R01", 20))]
    d["C02"] = P("h_mem", 0, 0, "Random programs over the public interface of the estimator, gyro filters and kinematics, and the workloads of all other checks, run under the address and undefined behaviour sanitizers and under memcheck; only memory errors, undefined behaviour, use of uninitialised values, failed library assertions and crashes count. Distinct: by the bits of what the calls returned.", need=("robots",), progs=progs)
    return d

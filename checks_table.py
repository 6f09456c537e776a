"""What each property's check runs, and how its evidence reads."""

COMMON = [
    "IEEE-754 float behaviour of this machine (x86-64, SSE2)",
    "input coordinates up to about 1e4 in magnitude; sizes up to 70 000 primitives",
    "the f64 oracles judge only outcomes that are clear of rounding; unclear ones are skipped and counted",
]


def std(bin_, quick=20, thorough=240, features=None, rel_quick=False, **kw):
    st = [dict(name="chk", profile="chk", bin=bin_, budget=(quick, thorough), features=features, **kw)]
    rel = dict(name="rel", profile="rel", bin=bin_, budget=(quick, thorough // 2), features=features, **kw)
    if not rel_quick:
        rel["tiers"] = ("thorough",)
    st.append(rel)
    return st


SCENES = "27 triangle scene kinds and 6 box scene modes x 3 builders x sizes 1..70000 x AABB source x leaf limit"

TRIPLE = "x86_64-unknown-linux-gnu"


def sanitized(name, bin_, quick, thorough, flags, env, features=None, build_std=True, **kw):
    return dict(name=name, profile="chk", bin=bin_, budget=(quick, thorough), features=features, target=name, triple=TRIPLE, toolchain=["+nightly"],
                cargo_args=(["-Zbuild-std"] if build_std else []) + ["--target", TRIPLE],
                build_env=dict(RUSTFLAGS="--cfg rtbvh_verif -Awarnings " + flags), env=env, no_must=True, **kw)


def asan(bin_, quick, thorough, **kw):
    return sanitized("asan", bin_, quick, thorough, "-Zsanitizer=address", dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1"), build_std=False, **kw)


def tsan(bin_, quick, thorough, **kw):
    return sanitized("tsan", bin_, quick, thorough, "-Zsanitizer=thread --cfg crossbeam_sanitize_thread --cfg crossbeam_sanitize --cfg tsan_enabled",
                     dict(TSAN_OPTIONS="exitcode=0 halt_on_error=0 log_path=@LOG@ history_size=5", VH_SANLOG="@LOG@"), **kw)


def msan(bin_, quick, thorough, **kw):
    return sanitized("msan", bin_, quick, thorough, "-Zsanitizer=memory -Zsanitizer-memory-track-origins", {}, **kw)


def miri(bin_, quick, thorough, **kw):
    return dict(name="miri", kind="miri", profile="chk", bin=bin_, budget=(quick, thorough), target="miri", no_must=True, cpu_limit=900,
                env=dict(MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-disable-isolation -Zmiri-preemption-rate=0.03 -Zmiri-seed=@SEED@@SHARD@", RAYON_NUM_THREADS="3"), **kw)


CHECKS = {
    "C01": dict(
        stages=std("c01"),
        technique="runtime monitoring: structural monitor over every built tree",
        rule=f"one case = one build over a generated scene ({SCENES}); non-trivial when it has more than 2 primitives; distinct by scene and parameters",
        assumptions=COMMON,
        floor={"reachable_nodes": 10000},
    ),
    "C02": dict(
        stages=std("c02"),
        technique="runtime monitoring: enclosure and tightness monitor over every node",
        rule=f"one case = one build ({SCENES}) whose every node box is compared with the primitives below it; non-trivial when it has more than 2 primitives",
        assumptions=COMMON,
        floor={"nodes_checked": 10000},
    ),
    "C03": dict(
        stages=std("c03"),
        technique="runtime monitoring: f64 hit oracle over recorded traversals",
        rule=f"one evaluation = one ray traced through one structure ({SCENES}; BVH and quad BVH; static and limit-shrinking); non-trivial when the oracle found at least one clear hit; distinct by scene and ray",
        assumptions=COMMON + ["a miss counts only when it persists for at least 6 of 8 slightly moved rays"],
        floor={"clear_tri_hits": 10000, "clear_box_hits": 10000, "closest_hits_found": 1000},
    ),
    "C04": dict(
        stages=std("c04"),
        technique="runtime monitoring: f64 hit oracle over recorded packet traversals",
        rule=f"one evaluation = one packet of four rays traced through one structure ({SCENES}); non-trivial when the oracle found at least one clear hit in some lane",
        assumptions=COMMON + ["a miss counts only when it persists for at least 6 of 8 slightly moved packets"],
        floor={"clear_tri_hits": 10000, "clear_box_hits": 10000, "closest_hits_found": 1000},
    ),
    "C05": dict(
        stages=std("c05"),
        technique="runtime monitoring: structural differential of quad tree and source tree",
        rule=f"one case = one BVH ({SCENES}, also empty and refitted ones) converted in all three ways; non-trivial when it has more than 2 primitives",
        assumptions=COMMON,
        floor={"leaf_lanes_matched": 10000},
    ),
    "C06": dict(
        stages=std("c06"),
        technique="runtime monitoring: cross-comparison of all traversal front ends",
        rule=f"one evaluation = one ray or packet through all front ends of one structure ({SCENES}); non-trivial when something is yielded",
        assumptions=COMMON,
        floor={"yields": 10000},
    ),
    "C07": dict(
        stages=std("c07"),
        technique="runtime monitoring: refit histories against recomputation from the latest boxes",
        rule=f"one evaluation = one refit in a history of refits of one tree ({SCENES}); non-trivial when the tree has more than 2 primitives",
        assumptions=COMMON,
        floor={"refits": 200, "clear_hits_after_refit": 1000},
    ),
    "C08": dict(
        stages=std("c08"),
        technique="runtime monitoring: canonical tree comparison under injected scheduling delays",
        rule="one case = one input built under 8-14 schedules (task thresholds 1..1024, injected delays at task starts, allocations and callbacks, CPU affinities, thread pools, concurrent builds); non-trivial when it has more than 16 primitives; distinct node numberings count the interleavings seen",
        assumptions=COMMON + ["interleavings are sampled by delay injection, not enumerated"],
        floor={"builds_compared": 1000},
    ),
    "C09": dict(
        stages=[
            dict(name="chk", profile="chk", bin="c09", budget=(8, 240), features="ffi"),
            asan("c09", 10, 240, features="ffi"),
            tsan("c09", 12, 400, features="ffi"),
            miri("c09", 25, 600, features="ffi"),
            msan("c09", 10, 200, features="ffi", tiers=("thorough",)),
            dict(name="rel", profile="rel", bin="c09", budget=(8, 120), features="ffi", tiers=("thorough",)),
        ],
        technique="sanitizers: std precondition and overflow checks, AddressSanitizer, ThreadSanitizer, Miri (MemorySanitizer in the thorough tier) over real workloads",
        rule="one case = one workload (multi-threaded build with injected delays, conversions, refit, all front ends, concurrent traversals and builds; deep chains; own-alignment memory; empty structures; C API over guard-paged memory, single and concurrent) run to the end under one detector; non-trivial when it has more than 2 primitives",
        assumptions=COMMON + ["ThreadSanitizer reports count only when an access is made by rtbvh or harness code, not by the thread pool's own internals", "the Rust aliasing model (Stacked Borrows) is not judged"],
        floor={"builds": 200, "concurrent_traversals": 5000, "c_api_rounds": 50, "c_api_concurrent_rounds": 50, "alignments": 50, "trees_deeper_than_31": 10, "empty_rounds": 20},
    ),
    "C10": dict(
        stages=std("c10", features="ffi"),
        technique="runtime monitoring: result oracle over every combination of counts",
        rule=f"one evaluation = one build request (primitive count x AABB count x builder x front end, Rust and C); non-trivial when the request is invalid or has more than 2 primitives",
        assumptions=COMMON,
        floor={"count_mismatch": 100, "no_primitives": 50, "successes": 100, "c_api_errors": 200},
    ),
    "C11": dict(
        stages=std("c11"),
        technique="runtime monitoring: leaf-size and depth monitor over every built tree",
        rule=f"one case = one build ({SCENES}); non-trivial when it has more than 2 primitives",
        assumptions=COMMON,
        floor={"leaves": 50000, "trees_with_requested_size": 50, "small_trees": 1000, "overflowing_trees": 20, "deep_peeled_trees_Binned": 5, "deep_peeled_trees_Spatial": 5},
    ),
    "C12": dict(
        stages=std("c12"),
        technique="runtime monitoring: progress watchdog, panic trap and request-counting primitives",
        rule=f"one case = one degenerate or adversarial input built with all builders, validated, converted, refitted and traversed under CPU and call-count budgets; non-trivial when it has more than 2 primitives",
        assumptions=COMMON,
        floor={"traversals": 2000, "refits": 50, "trees_deeper_than_31": 10, "deep_trees_on_a_small_stack": 5, "raw_chains_on_a_small_stack": 10},
    ),
    "C13": dict(
        stages=std("c13"),
        technique="runtime monitoring: yield monitor over NaN rays and empty structures",
        rule=f"one evaluation = one NaN ray or packet, or one empty structure, through every front end; non-trivial when a NaN is present",
        assumptions=COMMON,
        floor={"nan_rays": 5000, "nan_packets": 5000, "empty_structure_rounds": 200, "nan_masks": 63, "nan_packet_positions": 24},
    ),
    "C14": dict(
        stages=std("c14"),
        technique="runtime monitoring: exact-geometry oracle over single-ray tests",
        rule=f"one evaluation = one ray against one triangle, all windings and rotations; non-trivial when the f64 oracle finds the outcome clear",
        assumptions=COMMON,
        floor={"clear_hits": 100000, "clear_misses": 100000},
    ),
    "C15": dict(
        stages=std("c15"),
        technique="runtime monitoring: lane-by-lane differential of packet and single tests",
        rule=f"one evaluation = one packet against one triangle; non-trivial when at least one lane has a clear outcome",
        assumptions=COMMON,
        floor={"clear_hit_lanes": 100000, "clear_miss_lanes": 100000, "hit_lane_masks": 16},
    ),
    "C16": dict(
        stages=std("c16"),
        technique="runtime monitoring: exact-geometry oracle over box tests",
        rule=f"one evaluation = one set of rays against one box; non-trivial when at least one outcome is clear",
        assumptions=COMMON,
        floor={"clear_hits": 100000, "clear_misses": 100000, "packet_box_tests": 50000, "quad_lane_tests": 100000},
    ),
    "C17": dict(
        stages=std("c17"),
        technique="runtime monitoring: box-algebra monitor over operation sequences",
        rule=f"one case = 200 rounds of box operations checked against their definitions; distinct by starting values",
        assumptions=COMMON,
        floor={"algebra_rounds": 100000, "transforms": 100000},
    ),
    "C18": dict(
        stages=std("c18"),
        technique="runtime monitoring: definition monitor over Morton codes and sort results",
        rule=f"one case = one table sweep or one sorted primitive set in one thread pool; non-trivial when it has more than 2 elements",
        assumptions=COMMON,
        floor={"values_spread": 1024, "triples_encoded": 1000000, "points_encoded": 100000, "sorted_primitives": 100000, "ties": 100000},
    ),
    "C19": dict(
        stages=std("c19"),
        technique="runtime monitoring: f64 clipping oracle over split results",
        rule=f"one evaluation = one triangle split at one position of one axis; non-trivial when the plane crosses the triangle",
        assumptions=COMMON,
        floor={"crossing_planes": 100000, "points_checked": 1000000},
    ),
    "C22": dict(
        stages=std("c22", features="ser"),
        technique="runtime monitoring: round-trip differential in four serialization formats",
        rule=f"one evaluation = one value written, read back and compared ({SCENES}); non-trivial when it has more than 2 primitives",
        assumptions=COMMON,
        floor={"bvh_round_trips": 100, "quad-bvh_round_trips": 100, "ray_round_trips": 1000, "yields_compared": 100000},
    ),
    "C23": dict(
        stages=std("c23"),
        technique="runtime monitoring: differential of all ways to make a ray",
        rule=f"one evaluation = one set of four rays made in every way and used in every test; non-trivial always; distinct by rays",
        assumptions=COMMON,
        floor={"ray_sets": 10000, "box_oracle": 100000},
    ),
    "C24": dict(
        stages=std("c24"),
        technique="runtime monitoring: online path checker over every yielded primitive",
        rule=f"one evaluation = one traversal of one structure ({SCENES}); non-trivial when at least one box was judged",
        assumptions=COMMON,
        floor={"boxes_judged_dynamically": 100000, "references_out_of_reach": 100000, "yields": 100000},
    ),
    "C25": dict(
        stages=std("c25"),
        technique="runtime monitoring: sequence differential of concurrent and interleaved traversals",
        rule=f"one case = one shared structure traversed alone, interleaved and from several threads, with snapshots; non-trivial when something is yielded",
        assumptions=COMMON + ['interleavings are sampled by delay injection, not enumerated'],
        floor={"interleaved_steps": 100000, "concurrent_traversals": 5000, "concurrent_clones_and_conversions": 2000, "interleavings": 50},
    ),
    "C20": dict(
        stages=std("c20", features="ffi") + [
            dict(name="c", target="ffic", profile="chk", bin="c20_c", build_cmd=["./build.sh"], cwd="ffic", budget=(3, 60)),
            dict(name="cpp", target="ffic", profile="chk", bin="c20_cpp", build_cmd=["./build.sh"], cwd="ffic", budget=(3, 60)),
        ],
        technique="runtime monitoring: differential of recorded C API calls against the Rust API; C and C++ drivers walking the data through the generated headers",
        rule="one evaluation = one traversal through an intersect function (unchanged, stopped, closest-hit, NaN) over a structure created from strided caller memory; non-trivial when it visits something",
        assumptions=COMMON,
        floor={"trees_compared": 100, "quad_trees_compared": 100, "refits_compared": 50, "traversals_compared": 2000, "stopped_traversals": 1000, "nan_positions": 60, "big_trees_compared": 1, "failing_creations": 1000,
               "c_trees_walked": 100, "cpp_trees_walked": 100, "c_hits": 1000, "cpp_hits": 1000},
    ),
    "C21": dict(
        stages=std("c21", features="ffi", shards=4) + [
            asan("c21", 6, 120, features="ffi", shards=4),
            tsan("c21", 8, 240, features="ffi", shards=4, tiers=("thorough",)),
        ],
        technique="runtime monitoring: offline checker over recorded concurrent handle histories",
        rule="one evaluation = one operation of a concurrent history checked against the handle model (register linearizability per handle, identity, address and content stability), or one memory accounting cycle; non-trivial when it concerns a shared handle; distinct histories counted separately",
        assumptions=COMMON + ["interleavings are sampled by barriers and injected delays, not enumerated"],
        floor={"overlapping_operations": 100, "shared_refits": 300, "identities": 1500, "memory_cycles": 60, "histories": 100, "handles_alive_at_once": 66000},
    ),
    "C26": dict(
        stages=std("c26"),
        technique="runtime monitoring: accessor model and f64 reach oracle over hand-made trees",
        rule="one evaluation = one random sequence of node operations against a model, or one ray and packet traced through a hand-made tree of binary or quad nodes with all front ends for slices; non-trivial when the tree has more than 2 references",
        assumptions=COMMON,
        floor={"node_operations": 20000, "quad_node_operations": 10000, "hand_made_trees": 200, "hand_made_quad_trees": 100, "required_yields": 10000, "forbidden_yields": 10000, "empty_leaves": 100, "dead_ends": 100},
    ),
    "C27": dict(
        stages=std("c27") + [asan("c27", 6, 120)],
        technique="runtime monitoring: injected panics in the caller's methods; differential of what comes before, beside and after against undisturbed builds",
        rule=f"one case = one scene built undisturbed, then a series of builds each with one injected panic (method, call and number of panics at random), sorting and traversal loops interrupted likewise ({SCENES}); non-trivial when the build calls the caller more than 4 times",
        assumptions=COMMON + ['interleavings are sampled by delay injection, not enumerated'],
        floor={"panicking_builds": 300, "builds_afterwards": 150, "neighbour_builds": 100, "interrupted_traversals": 300, "memory_checks": 5},
    ),
    "C28": dict(
        stages=std("c28"),
        technique="runtime monitoring: expected cost of every built tree against that of a greedy full-sweep tree",
        rule="one case = one scene built by all three builders and collapsed, each tree measured; non-trivial always (20 and more primitives)",
        assumptions=["the limits are the property's own numbers; the largest ratios seen are in the evidence"],
        floor={"trees_measured": 1000, "trees_measured_Even": 200, "trees_measured_Ordinary": 400, "trees_measured_Degenerate": 100, "trees_measured_Overlap": 200},
    ),
    "C29": dict(
        stages=std("c29"),
        technique="runtime monitoring: order of yields against entry distances computed in f64",
        rule=f"one case = one structure ({SCENES}) traversed by rays and packets through all front ends and in closest-hit searches; non-trivial when it has more than 4 primitives",
        assumptions=COMMON,
        floor={"quad_siblings_judged": 50000, "packet_siblings_judged": 50000, "closest_hit_searches": 5000},
    ),
    "C30": dict(
        stages=std("c30", features="ffi"),
        technique="runtime monitoring: counting global allocator (live bytes and peak) around every operation",
        rule=f"one case = one input ({SCENES}) built, converted, refitted, traversed and taken through the C API, each repeated while live and peak bytes are watched; non-trivial when it has more than 2 primitives",
        assumptions=COMMON + ["memory is what goes through the global allocator; the stacks of threads are not counted", "what is not kept by every one of at least 4 repetitions is the thread pools' own"],
        floor={"builds_measured": 60, "traversals_measured": 4000, "traversals_with_memory_of_their_own": 20, "c_intersections_measured": 500, "c_cycles": 300},
    ),
    "C31": dict(
        stages=std("c31") + [asan("c31", 6, 120), miri("c31", 0, 400, tiers=("thorough",))],
        technique="runtime monitoring with hostile primitives: answers made up by the harness, structure and references judged after every step, panics, hangs and address errors caught",
        rule="one case = one set of primitives whose centers, boxes, vertices and parts are each sane, odd for some or for all (12 kinds of oddity), another sensible answer every time, or anything at all; built, validated, refitted to wild boxes, converted and traversed; non-trivial when centers or boxes (or, with spatial splits, vertices or parts) cannot be trusted and there are more than 2 primitives",
        assumptions=COMMON + ["how deep or good the trees of untrustworthy primitives are is not judged"],
        floor={"builds_of_untrustworthy_primitives": 1500, "refits": 2000, "traversals": 50000, "answers_made_up": 1000000},
    ),
    "C32": dict(
        stages=std("c32", features="ser") + [asan("c32", 6, 120, features="ser"), miri("c32", 0, 400, features="ser", tiers=("thorough",))],
        technique="runtime monitoring: model-based monitor over random histories of operations on a pool of live structures",
        rule="one case = one history of 8 to 40 operations (build, refit to moved triangles, clone, drop, convert in 4 ways, save and load, stopped or panicking traversals, lending to threads, moving to a thread, rejected builds) over up to 6 live structures, judged after every operation; distinct by the sequence of operations; non-trivial when something was refitted and there are more than 2 primitives",
        assumptions=COMMON,
        floor={"checks": 20000, "clear_hits": 200000, "refits": 2000, "traversals_panicked": 200, "threads_lent_to": 2000},
    ),
    "C33": dict(
        stages=std("c33"),
        technique="runtime monitoring: two-level searches against f64 ray-triangle geometry of the flattened scene",
        rule="one case = up to 60 transformed instances of up to 4 meshes under a top-level structure, searched by rays and packets through BVHs and quad BVHs at either level, over 3 frames with the top level refitted in between; non-trivial when there is more than one instance and something is clearly hit",
        assumptions=COMMON,
        floor={"clear_hits": 100000, "searches": 50000, "packet_searches": 20000, "refits": 500, "distances_judged": 40000},
    ),
    "C34": dict(
        stages=std("c34", features="demo"),
        technique="runtime monitoring: camera model in f64 and pictures compared with a search through all triangles",
        rule="one case = one scene (or the repository's teapot) of the demo crate's triangles seen by its camera after up to 12 moves and turns; up to 40x23 pixels shown by six routes each; non-trivial when something is shown",
        assumptions=COMMON + ["the camera is not turned straight up or down"],
        floor={"camera_rays": 50000, "moves": 2000, "turns": 2000, "normals": 200000, "pixels_with_something": 20000, "routes_judged": 1000000, "teapots": 20},
    ),
    "C35": dict(
        stages=std("c35", features="ser") + [miri("c35", 0, 90, features="ser", tiers=("thorough",))],
        technique="runtime monitoring: answers about edited trees compared with a walk over them",
        rule="one case = one built tree (or a chain of up to 30000 leaves) saved, edited up to 4 times - indices overwritten or exchanged, leaves cut, emptied, exchanged or moved, inner nodes made leaves or relinked - and loaded; non-trivial when something was edited",
        assumptions=COMMON + ["links lead into the tree, without loops", "invalid nodes have neither link nor count"],
        floor={"complete_trees": 800, "incomplete_trees": 800, "traversals": 8000, "refits": 1500, "deep_chains": 20},
    ),
    "C36": dict(
        stages=std("c36") + [miri("c36", 0, 90, tiers=("thorough",))],
        technique="runtime monitoring: scenes scaled by powers of two and moved far away, against a double-precision oracle of the unscaled case and the work done at its own scale",
        rule="one case = one scene placed up to 40000 units away, scaled per axis by powers of two up to 2^+-62, built there or moved there by a refit, and 48 rays (12 packets) with directions of any length; non-trivial with more than 4 triangles",
        assumptions=COMMON + ["no coordinate, area or distance leaves the range of normal f32 numbers", "triangles are not thinner than the rounding of the coordinates they are placed at"],
        floor={"sure hits": 100000, "sure limits": 100000, "far": 20000, "uneven": 50000, "small": 50000, "large": 50000, "refits": 300, "builds": 800, "work compared": 50, "work compared smaller": 5},
    ),
}

"""What each check runs: harness, instrumented builds, shards, and which observations it must have made."""

import os

SAN = ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
STD = ["-std=c++14", "-w", "-ftemplate-depth=2000"]

VARIANTS = {
    # sanitized, assertions on
    "san": dict(cxx="g++", flags=STD + SAN, cfg="intrin"),
    # the same without the alignment check, for harnesses that query structures mapped from frozen bytes
    "sanmap": dict(cxx="g++", flags=STD + SAN + ["-fno-sanitize=alignment"], cfg="intrin"),
    # as shipped (Release)
    "opt": dict(cxx="g++", flags=STD + ["-O2", "-DNDEBUG"], cfg="intrin"),
    # no intrinsics, other compiler, assertions on
    "port": dict(cxx="clang++", flags=STD + ["-O2"], cfg="portable"),
    # popcount instruction
    "pop": dict(cxx="g++", flags=STD + ["-O3", "-msse4.2", "-DNDEBUG"], cfg="popcnt"),
}

VARIANTS.update({
    "tsan": dict(cxx="clang++", flags=STD + ["-g", "-O1", "-fsanitize=thread"], cfg="intrin"),
    "tsanport": dict(cxx="g++", flags=STD + ["-g", "-O2", "-fsanitize=thread", "-DNDEBUG"], cfg="portable"),
    # memory and undefined-behaviour monitors with the library's assertions off
    "sannd": dict(cxx="g++", flags=STD + SAN + ["-DNDEBUG"], cfg="intrin"),
    "sanmapnd": dict(cxx="g++", flags=STD + SAN + ["-fno-sanitize=alignment", "-DNDEBUG"], cfg="portable"),
    "clangsan": dict(cxx="clang++", flags=STD + SAN + ["-msse4.2", "-fno-sanitize=function,vptr", "-DNDEBUG"], cfg="popcnt"),
    # under valgrind memcheck
    "mem": dict(cxx="g++", flags=STD + ["-g", "-O1", "-DNDEBUG"], cfg="intrin", wrap=["valgrind", "--error-exitcode=99", "--exit-on-first-error=no", "--track-origins=no", "--partial-loads-ok=no", "--num-callers=12"]),
    # every edge of the control flow graph reported to the harness
    "steps": dict(cxx="clang++", flags=STD + ["-O1", "-fsanitize-coverage=trace-pc", "-DNDEBUG"], cfg="intrin", ldflags=["-Wl,--wrap=memcpy,--wrap=memmove"]),
    "stepsport": dict(cxx="clang++", flags=STD + ["-O1", "-fsanitize-coverage=trace-pc", "-DNDEBUG"], cfg="portable", ldflags=["-Wl,--wrap=memcpy,--wrap=memmove"]),
    "stepsO0": dict(cxx="clang++", flags=STD + ["-O0", "-fsanitize-coverage=trace-pc", "-DNDEBUG"], cfg="intrin", ldflags=["-Wl,--wrap=memcpy,--wrap=memmove"]),
    # the recorded version of the library (see ref/README), for the comparison between versions
    "ref": dict(cxx="g++", flags=STD + ["-O2", "-DNDEBUG"], cfg="intrin", root="ref"),
    # further build configurations, for the comparison between builds
    "gcc-O0-portable": dict(cxx="g++", flags=STD + ["-O0"], cfg="portable"),
    "clang-O3-popcnt": dict(cxx="clang++", flags=STD + ["-O3", "-msse4.2", "-DNDEBUG"], cfg="popcnt"),
    "clang-O1-intrin": dict(cxx="clang++", flags=STD + ["-O1"], cfg="intrin"),
    "gcc-O3-native": dict(cxx="g++", flags=["-std=c++17"] + STD[1:] + ["-O3", "-mavx2", "-mbmi", "-mbmi2", "-mpopcnt", "-DNDEBUG", "-fno-strict-aliasing"], cfg="portable"),
})

DEFAULTS = dict(cpu=60, wall=400, mem_gb=6)


def plan(base, san=4, opt=2, port=2, pop=0, huge=0, sanv="san"):
    p = []
    for v, n in ((sanv, san), ("opt", opt), ("port", port), ("pop", pop)):
        if n:
            p.append(dict(variant=v, shards=n))
    if huge:
        p.append(dict(variant="opt", shards=huge, heavy=True, env={"MON_HUGE": "1"}, mem_gb=12 if huge == 1 else 9, cpu=300, tag="huge"))
    return p


CHECKS = {}


def check(pid, harness, quick, thorough, rule, level="exploration", require=(), **kw):
    CHECKS[pid] = dict(harness=harness, quick=quick, thorough=thorough, rule=rule, level=level, require=list(require), **kw)


check("C01", "h_bits", plan(0, 4, 2, 2, huge=1), plan(0, 8, 4, 4, 4, huge=1),
      "a generated builder script or source range; distinct by the hash of the bits it describes",
      require=["builder.append", "builder.swap", "builder.reverse", "bit_vector.get_word56", "builder-scripts", "vectors beyond 2^32 bits"])
check("C02", "h_bits", plan(0, 4, 2, 2, huge=1), plan(0, 8, 4, 4, 4, huge=1),
      "a generated bit sequence, distinct by its hash; every position (up to 70000 bits) or boundary and random positions queried",
      require=["predecessor0", "predecessor1", "successor0", "successor1", "jump over >= 2 whole words"])
check("C03", "h_bits", plan(0, 4, 2, 2, huge=1), plan(0, 8, 4, 4, 4, huge=1),
      "a generated bit sequence, distinct by its hash, on which enumerators are driven by random operation mixes",
      require=["take(64)", "enumerator copied", "unary enumerator copied", "skip0 from a one already returned", "skip over > 128 ones"])
check("C04", "h_rs", plan(0, 4, 2, 2, 1, huge=1), plan(0, 8, 4, 4, 4, huge=1),
      "a generated bit sequence, distinct by its hash, indexed with each of the four hint choices",
      require=["rank", "rank0", "select", "select0", "more than two select hints", "more than two select0 hints", "hints=0", "hints=1", "hints=2", "hints=3", "vectors beyond 2^32 bits"])
check("C05", "h_darray", plan(0, 4, 2, 2, 1, huge=3), plan(0, 8, 4, 4, 4, huge=3),
      "a generated bit sequence or append script, distinct by its hash",
      require=["block below the sparse threshold", "block at or above the sparse threshold", "block span 65535", "block span 65536", "darray64 block of maximal sparsity", "vectors beyond 2^32 bits", "more than 2^32 positions", "darray64 with more than 2^32 positions", "darray64 beyond 2^32 bits"])
check("C06", "h_ef", plan(0, 4, 2, 2, 1, huge=3), plan(0, 8, 4, 4, 4, huge=3),
      "a generated non-decreasing sequence with its universe (or a bit set), distinct by hash",
      require=["ef.select", "ef.delta", "ef.select_range", "ef.rank", "ef.operator[]", "ef.predecessor1", "ef.successor1", "query on a repeated element", "built from a bit vector",
               "low width 0", "low width 1", "low width 7", "low width 31", "low width 32", "low width 33", "low width 62", "low width 63", "without rank index", "low part beyond 2^32 bits", "high part beyond 2^32 bits", "more than 2^32 elements"])
check("C07", "h_ef", plan(0, 4, 2, 2, 1, huge=3), plan(0, 8, 4, 4, 4, huge=3),
      "a generated non-decreasing sequence with its universe (or a bit set), distinct by hash, enumerated from many indexes",
      require=["ef.enumerator.next", "ef.enumerator.next(copy)", "enumerated to the last element", "low width 0", "low width 1", "low width 31", "low width 33", "low width 63", "low part beyond 2^32 bits", "high part beyond 2^32 bits", "more than 2^32 elements"])
_lists = ["gamma_vector", "gamma_bit_vector", "elias_fano_list", "elias_fano_compressed_list", "nibble_vector"]
check("C08", "h_lists", plan(0, 4, 2, 2, 1, huge=4), plan(0, 8, 4, 4, 4, huge=4),
      "a generated integer list with its list type, distinct by hash",
      require=["list:" + l for l in _lists] + ["range:uint8_t", "range:uint32_t", "range:int64_t", "container:list", "container:deque", "container:iterator_range", "code stream beyond 2^32 bits", "more than 2^32 nibbles", "more than 2^32 values"])
check("C09", "h_lists", plan(0, 4, 2, 2, 1, huge=4), plan(0, 8, 4, 4, 4, huge=4),
      "a generated integer list with its list type, distinct by hash, enumerated from many indexes",
      require=["enumerate", "enumerate from the first", "enumerate (copy)", "skipped", "gamma_bit_vector skip()", "enumerated to the end", "enumerator at the end", "enumerated across 2^32", "more than 2^32 values"])
check("C10", "h_bp", plan(0, 4, 2, 2, 1, huge=1), plan(0, 8, 4, 4, 4, huge=1),
      "a generated balanced parenthesis sequence, distinct by hash",
      require=["find_close", "find_open", "enclose", "match within a word", "match within 256", "match within 8192", "match within 4 superblocks", "match over 4 superblocks away",
               "enclosing parenthesis beyond a superblock", "depth over 32767", "more than 16 superblocks", "more than 2^31 parentheses", "more than 2^32 parentheses"])
check("C11", "h_bp", plan(0, 4, 2, 2, 1, huge=1), plan(0, 8, 4, 4, 4, huge=1),
      "a generated balanced parenthesis sequence, distinct by hash",
      require=["excess", "excess_rmq", "excess_rmq.minimum", "rmq over > 8 superblocks", "rmq over whole superblocks", "rmq over whole blocks", "rmq within neighbouring blocks", "depth over 32767", "more than 2^31 parentheses", "more than 2^32 parentheses"])
check("C12", "h_ct", plan(0, 4, 2, 2, 1, huge=1), plan(0, 8, 4, 4, 4, huge=1),
      "a generated array with its element type and order, distinct by hash",
      require=["more than 2^32 elements", "rmq", "cartesian_tree.size", "from list", "through the builder", "default order", "rmq over a long range", "type:uint64 less", "type:uint64 greater", "type:uint64 modulo order", "type:double", "type:string", "type:struct"])
check("C13", "h_ct", plan(0, 4, 2, 2, 1, huge=1), plan(0, 8, 4, 4, 4, huge=1),
      "a generated vector with its storage type, distinct by hash",
      require=["more than 2^32 elements", "topk.index", "topk.value", "enumerator.next", "enumerator.exhausted", "enumerator reused", "enumerator copied", "enumerator cleared", "ties in the answer",
               "over gamma_vector", "over gamma_bit_vector", "over elias_fano_list", "over elias_fano_compressed_list", "over mappable_vector<uint64_t>", "over mappable_vector<int64_t>"])
_kinds = ["bit_vector", "rs_bit_vector", "bp_vector", "darray", "darray64", "elias_fano", "elias_fano_list", "elias_fano_compressed_list", "gamma_vector", "gamma_bit_vector",
          "nibble_vector", "cartesian_tree", "topk_vector<gamma_vector>", "topk_vector<elias_fano_list>", "topk_vector<elias_fano_compressed_list>", "topk_vector<mappable_vector>",
          "mappable_vector<uint64_t>", "mappable_vector<uint16_t>", "mappable_vector<uint8_t>", "user structure", "topk_vector<gamma_bit_vector>"]
check("C14", "h_map", plan(0, 4, 2, 2, 1, huge=1, sanv="sanmap"), plan(0, 8, 4, 4, 4, huge=1, sanv="sanmap"),
      "a structure of one of 21 kinds built from a generated input, distinct by kind and input hash",
      require=["kind:" + k for k in _kinds] + ["mapped from a file", "warm-up", "read-only pages, guard after the end", "read-only pages, guard before the start", "unaligned address",
                                               "mapped over a built object", "mapped and swapped", "frozen beyond 4 GiB"])
check("C15", "h_map", plan(0, 4, 2, 2, 1, huge=1, sanv="sanmap"), plan(0, 8, 4, 4, 4, huge=1, sanv="sanmap"),
      "a structure of one of 21 kinds built from a generated input, distinct by kind and input hash",
      require=["kind:" + k for k in _kinds] + ["built by another route", "default-constructed frozen", "size tree nodes", "structures of narrow plain fields", "structures frozen on one stream", "frozen beyond 4 GiB"])
check("C23", "h_lines", plan(0, 4, 2, 2), plan(0, 8, 4, 4),
      "a generated text, distinct by its hash, read through every reader",
      require=["ends in a newline", "no newline at the end", "empty text", "line as long as the read buffer", "read from a pipe", "file of whole pages", "mmap_lines.line", "buffer_line_iterator.line",
               "lines().line", "fast_getline.line", "missing file throws"])
check("C24", "h_codes", plan(0, 4, 2, 2, 1), plan(0, 8, 4, 4, 4),
      "a generated list of 64-bit values, distinct by its hash",
      require=["vbyte length %d" % i for i in range(1, 11)] + ["decode_vbyte", "decode_vbyte(mappable)", "int2nat", "nat2int", "ceil_div", "ceil_div(32)"])
check("C25", "h_words", plan(0, 3, 2, 3, 2), plan(0, 8, 4, 4, 4),
      "a family of words (all 16-bit patterns at one shift, all byte pairs at one place, or 20000 random words), distinct by case",
      require=["16-bit patterns at every shift", "words with one or two bits", "byte pairs at every place", "random words", "popcount", "select_in_word", "msb", "lsb", "bit_position", "uleq_step_8", "uleq_step_9", "leq_step_8", "same_msb", "reverse_bits"])
_V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_g = {"MON_GOLDEN": os.path.join(_V, "golden")}


def with_env(plan_, env):
    return [dict(e, env={**e.get("env", {}), **env}) for e in plan_]


_cfgs = ["opt", "port", "pop", "gcc-O0-portable", "clang-O3-popcnt", "clang-O1-intrin", "sanmap"]


def compare_builds(results):
    """The same case must have logged the same digests in every build."""
    ref, viol, n, builds = {}, [], 0, set()
    for r in results:
        builds.add(r["job"]["variant"])
        for k, v in r["res"]["log"].items():
            ref.setdefault(k, {})[r["job"]["variant"]] = (v, r)
    for k, d in sorted(ref.items(), key=lambda x: (int(x[0].split()[0]), x[0])):
        n += len(d)
        if len({v for v, _ in d.values()}) > 1:
            case = int(k.split()[0])
            if k.endswith(" input"):
                raise RuntimeError("builds explored different inputs: %s %s" % (k, {a: b[0] for a, b in d.items()}))
            by = {}
            for var, (v, _) in d.items():
                by.setdefault(v, []).append(var)
            odd = min(by.values(), key=len)
            viol.append(dict(d[odd[0]][1], status="violation", key="builds-differ:" + k.split(" ", 1)[1].replace(" ", "-"), case=case, compare=True, desc="case %d, %s" % (case, k),
                             message="%s of case %d differ between builds: %s" % (k.split(" ", 1)[1], case, "; ".join("%s -> %s" % (",".join(b), v) for v, b in by.items()))))
    return viol, dict(digests_compared=n, builds_compared=sorted(builds), logged_items=len(ref))


def _same(cfgs, shards):
    return [dict(variant=v, shards=shards, env={"MON_SAME": "1"}) for v in cfgs]


def _versions(n):
    return [dict(variant=v, harness="h_digest", prop="C16", shards=n, env={"MON_SAME": "1"}) for v in ("opt", "ref")]


check("C16", "h_golden", with_env(plan(0, 3, 2, 2, 1, sanv="sanmap"), _g) + _versions(3), with_env(plan(0, 4, 4, 4, 4, sanv="sanmap"), _g) + _versions(8),
      "a file frozen by the pinned version (147 files of 21 kinds), mapped in four ways, and frozen anew from the same contents; distinct by file digest; "
      "or a structure of one of 21 kinds from a generated input, built and frozen by this tree and by the recorded version; distinct by kind and input hash",
      require=["kind:" + k for k in _kinds] + ["golden mapped from a file", "golden mapped from memory", "golden refrozen", "frozen now, compared with the pinned version", "answers checked against the pinned version",
                                               "answers logged", "bytes logged", "spread blocks"], post="compare_builds")

check("C17", "h_digest", _same(_cfgs, 2), _same(_cfgs + ["gcc-O3-native", "san"], 4),
      "a structure of one of 21 kinds (or a list of words) built and queried identically in every build; distinct by kind and input hash",
      require=["kind:" + k for k in _kinds] + ["answers logged", "bytes logged", "word primitives logged"], post="compare_builds")
_others = [("h_bits", "C01"), ("h_bits", "C02"), ("h_bits", "C03"), ("h_rs", "C04"), ("h_darray", "C05"), ("h_ef", "C06"), ("h_ef", "C07"), ("h_lists", "C08"), ("h_lists", "C09"),
           ("h_bp", "C10"), ("h_bp", "C11"), ("h_ct", "C12"), ("h_ct", "C13"), ("h_lines", "C23"), ("h_codes", "C24"), ("h_words", "C25")]


def _safety(scale, memscale, shards, thorough=False):
    p = [dict(variant=v, shards=shards, env={"MON_SAFETY": "1"}) for v in ("sannd", "clangsan")]
    p += [dict(variant="sanmapnd", shards=shards, env={"MON_SAFETY": "1", "MON_MAPPED": "1"}), dict(variant="mem", shards=4, env={"MON_SAFETY": "1", "MON_MAPPED": "1"}, cpu=900, wall=800)]
    for h, c in _others:
        p.append(dict(variant="sannd", harness=h, prop=c, shards=1 if not thorough else 2, env={"MON_SAFETY": "1", "MON_SCALE": str(scale)}))
        if h not in ("h_words", "h_codes", "h_lines") or thorough:
            p.append(dict(variant="mem", harness=h, prop=c, shards=1, env={"MON_SAFETY": "1", "MON_SCALE": str(memscale)}, cpu=900, wall=800))
    p.append(dict(variant="sanmapnd", harness="h_map", prop="C14", shards=2, env={"MON_SAFETY": "1", "MON_SCALE": str(scale)}))
    return p


check("C18", "h_safety", _safety(0.3, 0.01, 2), _safety(1, 0.05, 4, True),
      "a structure of one of 21 kinds, or a workload case of another property, executed under ASan+UBSan (gcc, clang) or memcheck with assertions off; distinct by input hash",
      require=["kind:" + k for k in _kinds] + ["answers computed under observation", "answers computed on mapped structures", "mapped arrays looked at", "built arrays aligned"])
# one process per kind and build, so that every kind is also the first thing its process queries
check("C19", "h_threads", [dict(variant="tsan", shards=21), dict(variant="tsanport", shards=21), dict(variant="opt", shards=7)],
      [dict(variant="tsan", shards=21), dict(variant="tsanport", shards=21), dict(variant="opt", shards=21)],
      "one shared structure of one of 21 kinds queried by 2 to 6 threads; distinct by kind and input hash",
      require=["kind:" + k for k in _kinds] + ["queries overlapped", "threads", "answers from threads", "built structures shared", "mapped structures shared"])
check("C20", "h_life", plan(0, 4, 2, 2, sanv="sanmap"), plan(0, 8, 4, 4, 4, sanv="sanmap"),
      "a random history of 12 to 35 operations over four objects of one of 21 kinds; distinct by kind and the hash of the contents used",
      require=["kind:" + k for k in _kinds] + ["swapped", "self-swap", "built over an object", "mapped over an object", "disposed", "destroyed and reconstructed", "swapped with a temporary", "assigned from part of itself", "assigned from its own elements in another order", "stolen", "cleared", "all memory released"])
check("C21", "h_life", plan(0, 4, 2, 2, sanv="sanmap"), plan(0, 8, 4, 4, 4, sanv="sanmap"),
      "one construction of one of 21 kinds, repeated with its k-th allocation failing for every k (sampled beyond 48); distinct by kind and input hash", level="fault_enumeration",
      require=["kind:" + k for k in _kinds] + ["injected allocation failures", "injected allocation failures in queries", "injected allocation failures in vector operations", "injected allocation failures in enumerators",
                                               "left empty", "left with its old contents", "nothing leaked", "built after the failure" if False else "nothing leaked at the end"])
check("C22", "h_io", plan(0, 4, 2, 2, sanv="sanmap"), plan(0, 8, 4, 4, 4, sanv="sanmap"),
      "a structure of one of 21 kinds frozen under every schedule of write faults (each write call failing, the device full at bytes, short and interrupted writes); distinct by kind and input hash", level="fault_enumeration",
      require=["kind:" + k for k in _kinds] + ["named freezes", "failure reported", "success reported", "write failures injected", "short writes injected", "interrupted writes injected", "over a longer file", "device full",
                                               "file size limits", "unusable path", "stream freezes on a failing device", "freeze to a stream that had failed", "freeze to an unusable stream"])
check("C26", "h_space", plan(0, 3, 3, 2, sanv="sanmap"), plan(0, 6, 4, 4, 4, sanv="sanmap"),
      "a structure of one of 21 kinds built from a generated input, distinct by kind and input hash",
      require=["kind:" + k for k in _kinds] + ["structures over 100000 bytes", "sparse directory blocks", "size at 99-101% of the bound"])
_steps_ops = ["rank", "rank0", "select", "select0", "darray1 select", "darray0 select", "elias_fano select", "elias_fano delta", "elias_fano enumeration", "list access", "list enumeration", "find_close", "find_open", "enclose",
              "excess", "excess_rmq", "array range-minimum", "top-k", "top-k steps", "unary enumerator to the end", "predecessor1", "successor0",
              "builder push_back", "builder append_bits", "builder zero_extend", "builder one_extend", "builder set_bits", "builder append", "builder reverse", "bit access", "get_bits", "skip0", "skip_no_move", "skip_zeros", "take to the end", "darray64 select", "darray64 append"]
check("C27", "h_steps", [dict(variant="steps", shards=5), dict(variant="stepsport", shards=3)], [dict(variant="steps", shards=8), dict(variant="stepsport", shards=8)],
      "a bit sequence, parenthesis sequence, array or list of up to 16 million (thorough: 64 million) positions, distinct by its hash; control-flow edges counted per query",
      require=["max steps: " + k for k in _steps_ops] + ["top-k entries", "long top-k"])

_seen_kinds = ["kind:" + k for k in _kinds]
check("C28", "h_indep", [dict(variant="tsan", shards=22), dict(variant="tsanport", shards=22), dict(variant="opt", shards=4)],
      [dict(variant="tsan", shards=22), dict(variant="tsanport", shards=22), dict(variant="opt", shards=22)],
      "2 to 5 threads, each building, querying, freezing, mapping, measuring and destroying one or two structures (or reading a text file) of its own; distinct by kinds and input hashes",
      require=_seen_kinds + ["kind:lines and codes", "work overlapped", "threads", "answers from threads", "objects frozen by threads", "the same input in every thread", "the same kind in every thread", "different kinds in the threads"])
check("C29", "h_pure", plan(0, 4, 2, 2, sanv="sanmap"), plan(0, 8, 4, 4, 4, sanv="sanmap"),
      "three objects of one of 21 kinds with three contents, queried in the middle of each other's queries while they are rebuilt, mapped, swapped, frozen and measured; distinct by kind and input hashes",
      require=_seen_kinds + ["questions asked", "questions asked in the middle of others", "interleaved", "another object at the same address", "mapped object at the same address", "mapped or built over a live object", "swapped between queries"])
check("C30", "h_mem", plan(0, 2, 3, 2, sanv="sanmap") + [dict(variant="stepsO0", harness="h_steps", prop="C30", shards=5)], plan(0, 4, 4, 4, 4, sanv="sanmap") + [dict(variant="stepsO0", harness="h_steps", prop="C30", shards=8)],
      "a structure of one of 21 kinds built from a generated input, distinct by kind and input hash; or a sequence or array of up to 16 million positions queried under the accounting allocator",
      require=_seen_kinds + ["answers on a small stack", "structures over 100000 bytes", "over 100000 bytes mapped", "memory within the bound", "stack within the bound", "stack measured", "mapped over a built object", "memory measured", "max bytes: top-k"])

# how many times the base number of cases the quick tier runs
for _c, _n in dict(C01=4, C02=6, C03=6, C04=3, C05=2, C06=2, C07=1.5, C08=2, C09=2, C10=4, C11=4, C12=3, C13=2, C14=2, C15=4, C20=3, C21=4, C23=5, C24=4, C25=2, C26=2, C27=2, C28=2, C29=2, C30=2).items():
    CHECKS[_c]["quick"] = with_env(CHECKS[_c]["quick"], {"MON_SCALE": str(_n)})

_D = "runtime monitoring: online differential oracle over generated workloads, under ASan+UBSan with assertions, as shipped (-O2), and in the portable and popcnt builds"
_X = " Exploration, not proof: reach is that of the generators, whose observed situations are counted in the evidence and partly required for an answer."
NOTES = {
    "C01": (_D, "Builder scripts (every operation, mixed, nested, beyond 2^32 bits) run beside a plain vector of bits; every read of the result is compared." + _X),
    "C02": (_D, "Every position (or edges and samples) of hostile bit patterns against precomputed nearest neighbours." + _X),
    "C03": (_D, "Random operation histories on enumerators and their copies against a model of the position and the bits cleared." + _X),
    "C04": (_D, "All four hint choices against prefix counts and position lists; one vector beyond 2^32 bits per run." + _X),
    "C05": (_D, "Directories over vectors whose block spans lie on both sides of the dense/sparse threshold, against position lists." + _X),
    "C06": (_D, "Sequences forcing every low-part width from 0 to 63, repetitions and clusters, against sorted arrays." + _X),
    "C07": (_D, "Enumerators from many start indices, all low widths, copied and run to the end, against the sequence." + _X),
    "C08": (_D, "Values up to the limit of each domain, in several integer types and containers, against the source list." + _X),
    "C09": (_D, "Enumerators from every kind of start index, with skips and copies, run to the end, against the source list." + _X),
    "C10": (_D, "Sixteen shapes of parenthesis sequences, up to depths over 32767, many superblocks and once more than 2^32 parentheses, against a stack." + _X),
    "C11": (_D, "Ranges chosen by the level of the directory that must answer them, with ties between words, blocks and superblocks, against a sparse table." + _X),
    "C12": (_D, "Arrays with ties, ramps and other types and orders against a scan or a sparse table." + _X),
    "C13": (_D, "Top-k and enumerator histories over six storage types against a stable sort." + _X),
    "C14": ("runtime monitoring: answers of mapped against built structures, read-only guard pages around the mapped bytes, ASan+UBSan", "21 kinds of structures, mapped from files, exact copies, unaligned addresses and guarded read-only pages; all answers compared." + _X),
    "C15": ("runtime monitoring: byte and size accounting of freeze, map and size_of on poisoned memory, across construction routes", "21 kinds of structures; bytes compared between routes and memory fillings; once beyond 4 GiB." + _X),
    "C16": ("runtime monitoring: files recorded from the pinned version replayed against answers recorded with them; frozen bytes and answers of generated inputs compared offline with a recorded version of the library",
            "147 recorded files of 21 kinds, mapped in four ways and written anew; and generated inputs built, frozen and queried by this tree and by the copy in ref/." + _X),
    "C17": ("runtime monitoring: execution logs of the same workload from seven (thorough: nine) builds compared offline", "Answers, sizes and frozen bytes of every case compared between compilers, optimisation levels, assertion and intrinsic settings." + _X),
    "C18": ("sanitizers: gcc and clang ASan+UBSan and valgrind memcheck over the workloads of the other properties, assertions off; alignment monitor on mapped arrays", "Only sanitizer reports count here: a wrong answer ends the case silently. One known finding (unpadded format) is matched by kind of structure." + _X),
    "C19": ("ThreadSanitizer (clang and gcc builds) and sequential-answer oracle over threads querying shared structures", "Every kind is also the first thing queried in a process of its own. Races are detected on the accesses executed (happens-before), not only on the interleavings that went wrong; the answers are compared as well."),
    "C20": ("runtime monitoring: random object histories against a model, with an accounting allocator and ASan", "Pools of four objects of each kind under swap, build, map, assign, steal, clear, dispose and reconstruction; every block must be released once." + _X),
    "C21": ("fault injection: every allocation of an operation made to fail in turn, under an accounting allocator and ASan", "All failure points of each construction (sampled beyond 48), assignment, steal, query, size tree and enumerator; contents, leaks and recovery checked."),
    "C22": ("fault injection: interposed write/writev (each call failing, device full at a byte, short, interrupted), RLIMIT_FSIZE, /dev/full and unusable paths", "All write calls and bytes for small files, edges and samples for larger ones; the file is compared with the bytes frozen without faults."),
    "C23": (_D, "Generated texts around the read buffer and page sizes, through files, pipes and memory, against a reference splitter." + _X),
    "C24": (_D, "Values of every bit length at every offset and in concatenations, against arithmetic definitions." + _X),
    "C25": (_D, "All 16-bit patterns at every shift, all one- and two-bit words, byte pairs at every place and random words against bit loops, in the intrinsic, popcnt and portable builds." + _X),
    "C26": ("runtime monitoring: reported and written sizes against a bound computed from the input", "One percent and 64 bytes above the size the design gives for the very input." + _X),
    "C27": ("runtime monitoring: control-flow edges per operation counted by -fsanitize-coverage=trace-pc against A + B log n", "Bounds are about four times the observed maxima, on structures of up to 2^24 positions, so that work growing faster than the logarithm exceeds them; slow constants are not judged." + _X),
    "C28": ("ThreadSanitizer (clang and gcc builds) and sequential-result oracle over threads working on separate structures", "Answers, frozen bytes, sizes, size trees and lines read by each thread are compared with the same work done alone; races are detected on the accesses executed."),
    "C29": ("runtime monitoring: histories of interleaved queries against the answers of fresh objects with the same contents, frozen bytes compared before and after", "Objects are rebuilt at the same address, mapped, swapped and queried in the middle of each other's queries, so that an answer remembered from elsewhere shows." + _X),
    "C30": ("runtime monitoring: bytes allocated per operation counted by a replaced allocator against bounds in the size of the structure; stack depth per operation measured in an uninlined build, workload on a 192 KB stack", "Bounds leave a margin of about two over what the design needs; stack depth is bounded by a constant (16 KiB per operation) in an uninlined clang -O0 build, which overstates what optimised builds use." + _X),
}

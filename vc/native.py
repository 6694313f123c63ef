"""Native build of the real sources (host configuration) with the search drivers in /verif/drivers."""
import os, glob, subprocess, time, shutil
from concurrent.futures import ThreadPoolExecutor
from .world import gen_config, REPO, HERE

CORE = ("Allocator ResourceManager Umpire resource/HostResourceFactory resource/MemoryResource resource/MemoryResourceRegistry "
        "resource/NoOpMemoryResource resource/NullMemoryResource resource/NullMemoryResourceFactory resource/FileMemoryResource "
        "resource/FileMemoryResourceFactory strategy/AlignedAllocator strategy/AllocationAdvisor "
        "strategy/AllocationPrefetcher strategy/AllocationStrategy strategy/DynamicPoolList strategy/FixedPool "
        "strategy/MixedPool strategy/MonotonicAllocationStrategy strategy/NamedAllocationStrategy strategy/NamingShim "
        "strategy/QuickPool strategy/SizeLimiter strategy/SlotPool strategy/ThreadSafeAllocator "
        "op/GenericReallocateOperation op/HostCopyOperation op/HostMemsetOperation op/HostReallocateOperation "
        "op/MemoryOperation op/MemoryOperationRegistry util/AllocationMap util/FixedMallocPool util/io util/Logger util/MPI "
        "util/OutputBuffer util/allocation_statistics util/detect_vendor event/event_store_recorder event/json_file_store "
        "event/recorder_factory event/quest_database").split()
UTIL = "util/AllocationMap util/FixedMallocPool util/io util/Logger util/MPI util/OutputBuffer util/allocation_statistics util/detect_vendor strategy/AllocationStrategy".split()


class NativeError(Exception):
    pass


def tus(kind):
    if kind == "util":
        return ["umpire/%s.cpp" % s for s in UTIL]
    mix = ["umpire/strategy/mixins/" + os.path.basename(f) for f in sorted(glob.glob(REPO + "/src/umpire/strategy/mixins/*.cpp"))]
    known = set("umpire/%s.cpp" % s for s in CORE)
    # sources a change may have added next to the listed ones
    extra = []
    return sorted(known) + mix + extra


def build(kind, driver, out, san="address", opt="-O1", extra=()):
    """-> path of the linked driver"""
    os.makedirs(out, exist_ok=True)
    gen_config(out)
    fl = [opt, "-g1", "-w", "-DNDEBUG"] + (["-fsanitize=" + san, "-fno-sanitize-recover=all"] if san else [])
    inc = ["-I" + REPO + "/src", "-I" + REPO + "/src/tpl", "-I" + out + "/include", "-I" + HERE + "/support/stub"]
    jobs = [(["clang++", "-std=c++14", "-DFMT_HEADER_ONLY"] + fl + inc + list(extra) + ["-c", REPO + "/src/" + s, "-o",
              out + "/" + s.replace("/", "_") + ".o"], out + "/" + s.replace("/", "_") + ".o") for s in tus(kind) if os.path.exists(REPO + "/src/" + s)]
    jobs.append((["clang", "-std=c99"] + fl + inc + ["-c", REPO + "/src/tpl/umpire/judy/judy.c", "-o", out + "/judy.o"], out + "/judy.o"))
    jobs.insert(0, (["clang++", "-std=c++14", "-DFMT_HEADER_ONLY"] + fl + inc + list(extra) + ["-c", driver, "-o", out + "/driver.o"], out + "/driver.o"))

    def cc(j):
        r = subprocess.run(j[0], capture_output=True, text=True)
        return r.returncode, r.stderr[:1500], j[0]
    with ThreadPoolExecutor(8) as tp:
        for rc, err, cmd in tp.map(cc, jobs):
            if rc:
                raise NativeError("compile failed: %s: %s" % (cmd[-3], err))
    exe = out + "/driver"
    r = subprocess.run(["clang++"] + (["-fsanitize=" + san] if san else []) + [j[1] for j in jobs] + ["-lpthread", "-ldl", "-o", exe],
                       capture_output=True, text=True)
    if r.returncode:
        raise NativeError("link failed: " + r.stderr[:1500])
    return exe


def run(exe, comp, seed, rounds, timeout):
    """-> (failed?, output)"""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", TSAN_OPTIONS="exitcode=99")
    try:
        r = subprocess.run([exe, comp, str(seed), str(rounds)], capture_output=True, text=True, timeout=timeout, env=env, errors="replace")
    except subprocess.TimeoutExpired as e:
        return None, "timeout after %ss" % timeout
    if r.returncode == 0:
        return False, r.stdout[-300:]
    if r.returncode == 2:
        return None, r.stderr[-500:]
    return True, (r.stdout[-12000:] + "\n" + r.stderr[:6000])

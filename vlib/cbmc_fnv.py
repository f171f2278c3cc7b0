"""Contract of the C function fnv_64a_buf (src/fnv/hash_64a.c), checked by CBMC on the current C source.

The Cython code calls it with 4- and 8-byte buffers only (pyvc refuses other
lengths), so the loop is fully unwound (with unwinding assertions): the result
is a proof for those two lengths, all buffer contents and all start values.
The FNV prime is written in two forms, s*0x100000001b3 and the sum of shifts
s + (s<<1) + (s<<4) + (s<<5) + (s<<7) + (s<<8) + (s<<40), equal in Z/2^64
because 1+2+16+32+128+256+2^40 = 0x100000001b3; the C code may use either.
"""
import os, subprocess, time

HARNESS = r"""
#include <stdint.h>
#include <stddef.h>
#include "fnv.h"
uint64_t nondet_u64(void); unsigned char nondet_u8(void);
static uint64_t mul(uint64_t s) {
#ifdef SHIFTS
  s += (s << 1) + (s << 4) + (s << 5) + (s << 7) + (s << 8) + (s << 40);
#else
  s *= 0x100000001b3ULL;
#endif
  return s;
}
int main(void) {
  unsigned char b[N]; uint64_t h = nondet_u64(), s;
  unsigned char o[N];
  for (size_t i = 0; i < N; i++) { b[i] = nondet_u8(); o[i] = b[i]; }
  s = h;
  for (size_t i = 0; i < N; i++) { s ^= b[i]; s = mul(s); }
  uint64_t r = (uint64_t) fnv_64a_buf(b, N, h);
  __CPROVER_assert(r == s, "postcondition: FNV-1a over the buffer");
  for (size_t i = 0; i < N; i++) __CPROVER_assert(b[i] == o[i], "frame: buffer unchanged");
  __CPROVER_assert((uint64_t) FNV1A_64_INIT == 0xcbf29ce484222325ULL, "offset basis (64 bit)");
  __CPROVER_assert((uint32_t) FNV1_32_INIT == 0x811c9dc5U, "offset basis (32 bit)");
  return 0;
}
"""


def run(prop, work):
    if prop not in ("C06", "C07"):
        return []
    repo = os.environ.get("VERIF_REPO", "/repo")
    t0 = time.time()
    h = os.path.join(work, "fnv_harness.c")
    with open(h, "w") as f:
        f.write(HARNESS)
    src = os.path.join(repo, "src", "fnv", "hash_64a.c")
    obs = []
    secs = 0.0
    for n in (4, 8):
        st, why = "undecided", ""
        for shifts in (["-DSHIFTS"], []):
            t1 = time.time()
            try:
                r = subprocess.run(["cbmc", h, src, "-I", os.path.dirname(src), "-DN=%d" % n] + shifts +
                                   ["--unwind", "12", "--unwinding-assertions", "--bounds-check", "--pointer-check", "--div-by-zero-check", "--no-standard-checks", "--z3"],
                                   capture_output=True, text=True, timeout=20)
            except (subprocess.TimeoutExpired, OSError) as x:
                why = "cbmc: %s" % x
                continue
            finally:
                secs += time.time() - t1
            if "VERIFICATION SUCCESSFUL" in r.stdout:
                st, why = "discharged", ""
                break
            if "VERIFICATION FAILED" in r.stdout:
                bad = [l for l in r.stdout.splitlines() if l.rstrip().endswith("FAILURE")]
                st, why = "refuted", "; ".join(bad)[:600]
                break     # the two forms are equal: one countermodel is enough
            why = (r.stdout + r.stderr)[-300:]
        obs.append({"name": "fnv_64a_buf/FNV-1a of a %d-byte buffer, buffer unchanged" % n, "status": st, "paths": 1, "why": why})
    return [{"contract": "fnv_64a_buf", "functions": ["src/fnv/hash_64a.c:fnv_64a_buf", "src/fnv/fnv.h:FNV1A_64_INIT", "src/fnv/fnv.h:FNV1_32_INIT"],
             "doc": "CBMC", "obligations": obs, "paths": 2, "solver": {"cbmc_seconds": round(secs, 2)}, "seconds": time.time() - t0,
             "inlined": ["src/fnv/hash_64a.c:fnv_64a_buf"], "assumed": ["CBMC 6.11 (C semantics, z3 back end)", "gcc compiles hash_64a.c according to C semantics; platform little endian (htole32/htole64 are the identity)"]}]


if __name__ == "__main__":
    import json, tempfile
    with tempfile.TemporaryDirectory() as d:
        print(json.dumps(run("C07", d), indent=1))

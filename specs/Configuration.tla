----------------------------- MODULE Configuration ----------------------------
(* A setting is taken from its variable if that is set, else it keeps its
   default (or, on a repeated configuration, whatever it was).  Variables are
   sequences of length 0 or 1.                                               *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Settings == <<"threads", "port", "timeout", "key", "proc", "mem", "kernels">>
VarOf == [threads |-> "HZIP_API_THREADS", port |-> "HZIP_API_PORT", timeout |-> "HZIP_API_TIMEOUT",
          key |-> "HZIP_API_KEY", proc |-> "HZIP_PROCESSOR_THREADS", mem |-> "HZIP_MAX_MEM_USAGE",
          kernels |-> "HZIP_OPENCL_KERNELS"]
DefaultOf == [threads |-> "1", port |-> "1729", timeout |-> "100", key |-> "hybridzip", proc |-> "1",
              mem |-> "1073741824", kernels |-> "32"]
Configured(env, s) == IF env[VarOf[s]] = <<>> THEN DefaultOf[s] ELSE env[VarOf[s]][1]
Or(v, d) == IF v = <<>> THEN d ELSE v[1]
Digits == [n \in 0..9 |-> ToString(n)]
CacheSet(env) ==
  IF env["HZIP_CACHE_FILE"] = <<>> THEN [name |-> "hzip", count |-> "4", page |-> "131072"]
  ELSE [name |-> env["HZIP_CACHE_FILE"][1], count |-> Or(env["HZIP_CACHE_COUNT"], "4"),
        page |-> Or(env["HZIP_CACHE_PAGE_SIZE"], "131072")]
CacheNames(env) ==
  LET c == CacheSet(env)
      n == CHOOSE k \in 0..9 : Digits[k] = c.count
  IN [p \in 1..n |-> c.name \o ".rain." \o ToString(p - 1)]
==============================================================================

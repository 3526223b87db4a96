-------------------------- MODULE ConfigurationModel --------------------------
(* Over all subsets of variables: every setting depends on its own variable
   only, and no two settings share one.                                      *)
EXTENDS Configuration, FiniteSets
Vars == {VarOf[s] : s \in ToSet(Settings)}
CacheVars == {"HZIP_CACHE_FILE", "HZIP_CACHE_COUNT", "HZIP_CACHE_PAGE_SIZE"}
VARIABLE env
Init == env = [v \in Vars \cup CacheVars |-> <<>>]
Next == \E v \in Vars \cup CacheVars : env[v] = <<>> /\ env' = [env EXCEPT ![v] = <<"7">>]
Spec == Init /\ [][Next]_env
Distinct == Cardinality(Vars) = Len(Settings)
Independent == \A s \in ToSet(Settings) : \A v \in Vars \cup CacheVars :
   v # VarOf[s] => Configured([env EXCEPT ![v] = <<"9">>], s) = Configured(env, s)
Own == \A s \in ToSet(Settings) : (env[VarOf[s]] # <<>>) <=> (Configured(env, s) = "7")
CachesWithoutFile == env["HZIP_CACHE_FILE"] = <<>> => CacheSet(env) = [name |-> "hzip", count |-> "4", page |-> "131072"]
==============================================================================

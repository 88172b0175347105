------------------------------- MODULE Profiles -----------------------------
(* Option profiles: which optimisation options a run uses.  Every field not   *)
(* named keeps the library's default.                                         *)
EXTENDS Integers, Sequences, TLC

Fuse == [no |-> 0, max |-> 1, smart |-> 2, typed |-> 3, hybrid |-> 4]

Opt(n) == CASE
  n = "default"   -> [tile |-> 1, parallel |-> 1]
  [] n = "notile"    -> [tile |-> 0, parallel |-> 0, diamondtile |-> 0]
  [] n = "par"       -> [tile |-> 0, parallel |-> 1, diamondtile |-> 0]
  [] n = "innerpar"  -> [tile |-> 0, parallel |-> 1, innerpar |-> 1, diamondtile |-> 0]
  [] n = "tinnerpar" -> [tile |-> 1, parallel |-> 1, innerpar |-> 1, diamondtile |-> 0]
  [] n = "multipar"  -> [tile |-> 1, parallel |-> 1, multipar |-> 1]
  [] n = "pmultipar" -> [tile |-> 0, parallel |-> 1, multipar |-> 1]
  [] n = "tile"      -> [tile |-> 1, parallel |-> 0, diamondtile |-> 0]
  [] n = "tilenoopt" -> [tile |-> 1, parallel |-> 0, diamondtile |-> 0, intratileopt |-> 0]
  [] n = "l2tile"    -> [tile |-> 1, parallel |-> 0, second_level_tile |-> 1]
  [] n = "l2par"     -> [tile |-> 1, parallel |-> 1, second_level_tile |-> 1]
  [] n = "nodiamond" -> [tile |-> 1, parallel |-> 1, diamondtile |-> 0]
  [] n = "fulldiam"  -> [tile |-> 1, parallel |-> 1, fulldiamondtile |-> 1]
  [] n = "nofuse"    -> [tile |-> 0, parallel |-> 1, fuse |-> 0]
  [] n = "tnofuse"   -> [tile |-> 1, parallel |-> 1, fuse |-> 0]
  [] n = "maxfuse"   -> [tile |-> 0, parallel |-> 1, fuse |-> 1]
  [] n = "tmaxfuse"  -> [tile |-> 1, parallel |-> 1, fuse |-> 1]
  [] n = "nfplain"   -> [tile |-> 0, parallel |-> 0, diamondtile |-> 0, fuse |-> 0]
  [] n = "mfplain"   -> [tile |-> 0, parallel |-> 0, diamondtile |-> 0, fuse |-> 1]
  [] n = "smartfuse" -> [tile |-> 1, parallel |-> 1, fuse |-> 2]
  [] n = "identity"  -> [tile |-> 0, parallel |-> 1, identity |-> 1]
  [] n = "percc"     -> [tile |-> 1, parallel |-> 1, per_cc_obj |-> 1]
  [] n = "nodepbound"-> [tile |-> 1, parallel |-> 1, nodepbound |-> 1]
  [] n = "coeff1"    -> [tile |-> 1, parallel |-> 1, coeff_bound |-> 2]
  [] n = "flic"      -> [tile |-> 1, parallel |-> 1, flic |-> 1]
  [] n = "glpk"      -> [tile |-> 1, parallel |-> 1, glpk |-> 1, islsolve |-> 0]
  [] n = "glpknt"    -> [tile |-> 0, parallel |-> 1, glpk |-> 1, islsolve |-> 0]
  [] n = "dfp"       -> [tile |-> 1, parallel |-> 1, glpk |-> 1, islsolve |-> 0, dfp |-> 1, lp |-> 1]
  [] n = "dfptyped"  -> [tile |-> 1, parallel |-> 1, glpk |-> 1, islsolve |-> 0, dfp |-> 1, lp |-> 1, fuse |-> 3]
  [] n = "dfphyb"    -> [tile |-> 1, parallel |-> 1, glpk |-> 1, islsolve |-> 0, dfp |-> 1, lp |-> 1, fuse |-> 4, hybridcut |-> 1]
  [] n = "dfpscc"    -> [tile |-> 1, parallel |-> 1, glpk |-> 1, islsolve |-> 0, dfp |-> 1, lp |-> 1, scc_cluster |-> 1]
  [] n = "dfpmax"    -> [tile |-> 0, parallel |-> 1, glpk |-> 1, islsolve |-> 0, dfp |-> 1, lp |-> 1, fuse |-> 1]
  [] n = "dfpilp"    -> [tile |-> 1, parallel |-> 1, glpk |-> 1, islsolve |-> 0, dfp |-> 1, ilp |-> 1]
  [] n = "autots"    -> [tile |-> 1, parallel |-> 1, find_tile_sizes |-> 1]
  [] n = "rar"       -> [tile |-> 1, parallel |-> 1, rar |-> 1]
  [] n = "lastwr"    -> [tile |-> 1, parallel |-> 1, lastwriter |-> 1]
  [] n = "lwcoal"    -> [tile |-> 1, parallel |-> 1, lastwriter |-> 1, isldepcoalesce |-> 1]
  [] n = "coal"      -> [tile |-> 0, parallel |-> 1, isldepcoalesce |-> 1]
  [] n = "ft0"       -> [tile |-> 1, parallel |-> 1, ft |-> 0, lt |-> 0]
  [] n = "quietdbg"  -> [tile |-> 1, parallel |-> 1, silent |-> 1]
  [] n = "debug"     -> [tile |-> 1, parallel |-> 1, debug |-> 1]
  [] n = "moredebug" -> [tile |-> 1, parallel |-> 1, moredebug |-> 1]
=============================================================================

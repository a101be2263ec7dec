SPECIFICATION Spec
CONSTANTS
 Clouds = {1, 2, 3}
 CovIds = {1, 2}
 Ress = {1000, 2000}
 Ks = {10, 20}
 Bug = "no"
INVARIANT AllFresh
PROPERTY NothingLeaks
CHECK_DEADLOCK FALSE

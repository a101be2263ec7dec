SPECIFICATION Spec
CONSTANTS
 Clouds = {1, 2}
 CovIds = {1}
 Ress = {1000, 2000}
 Ks = {10, 20}
 Bug = "swap"
PROPERTY NothingLeaks
CHECK_DEADLOCK FALSE

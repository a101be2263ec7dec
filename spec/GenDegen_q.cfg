SPECIFICATION Spec
CONSTANTS Ops = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14}
 Ns = {0,1,2,3,4,5,6,11}
 Shapes = {0,1,2,3,4}
 Ks = {1,4,5,20}
 Backends = {0,1,2}
CHECK_DEADLOCK FALSE

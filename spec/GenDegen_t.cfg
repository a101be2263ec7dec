SPECIFICATION Spec
CONSTANTS Ops = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14}
 Ns = {0,1,2,3,4,5,6,7,8,10,11,12,20,33}
 Shapes = {0,1,2,3,4}
 Ks = {1,2,3,4,5,6,10,20,40}
 Backends = {0,1,2}
CHECK_DEADLOCK FALSE

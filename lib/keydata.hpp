// generated by tools/gen_keys.cpp
#pragma once
namespace keys {
inline const short key_512_0[4][512] = {
{-3,-3,-2,1,1,4,1,2,1,4,1,-3,-1,3,2,-5,-8,-4,2,-3,-8,4,-7,2,-1,7,0,1,-2,-2,-2,-2,1,-1,-1,-3,5,-1,4,-2,6,-2,0,-1,2,1,-2,5,-3,-4,-2,0,-3,-2,-5,0,0,-3,0,4,4,1,0,6,9,-6,-3,4,2,-3,-5,2,-1,4,0,-1,6,4,5,-3,-4,-1,0,3,3,-3,0,2,-1,2,7,2,4,-5,-8,-4,-1,8,6,-1,1,3,-3,0,10,6,-3,2,2,1,-3,-1,-2,-2,2,-2,3,11,1,4,-2,0,-5,2,11,2,-2,0,-6,0,4,2,-1,-1,5,-5,-1,0,5,4,-3,-5,-4,-2,1,2,3,1,-2,-10,-1,2,2,-3,3,-6,-4,0,-1,1,6,0,3,-1,9,-2,-1,3,4,-2,-2,0,1,-1,0,-5,-5,-2,2,-2,4,-1,1,0,-4,4,-2,-6,0,-5,-1,4,-5,-1,-5,-5,5,-1,6,2,4,4,3,-3,1,-1,-2,0,1,-7,-1,0,0,0,-6,-3,4,-5,3,-9,-5,1,4,-4,-5,-1,-1,-6,0,-2,-3,-5,-1,0,-1,1,2,-1,0,-2,1,2,-6,2,5,-1,0,1,0,3,2,-4,1,3,-4,-5,-3,-3,3,-5,3,2,-9,3,-1,-3,0,11,-5,-5,0,-1,1,6,5,2,-11,-8,0,1,2,-5,-5,-8,-3,-11,-4,5,-1,-2,-4,4,-2,-6,2,0,-4,2,1,3,-6,-1,-7,2,3,-4,5,4,2,1,0,4,4,-1,1,-3,3,-3,0,-4,1,2,-1,-2,1,-3,-3,-3,1,8,-7,9,2,1,1,0,-2,1,5,-2,-1,-5,6,7,-1,1,2,-1,2,-1,-1,4,2,6,1,10,-1,-3,0,2,1,-1,9,10,7,0,-1,-2,3,4,-11,3,-2,-5,9,1,4,2,-8,-1,3,-1,5,2,3,-4,-4,4,1,-3,-2,-3,-3,-3,5,4,7,0,0,1,-5,-2,5,2,4,-1,-3,2,4,1,5,3,-9,-1,2,-3,-6,-2,0,3,2,2,1,8,-2,-3,16,-1,-1,3,0,3,-4,-1,-4,-1,-6,1,-1,1,-6,4,0,-5,1,4,2,6,5,-2,0,-3,0,-2,4,-6,-2,-2,-4,4,-5,0,3,-10,8,-7,3,4,-5,0,1,7,-3,-2,-5,10,-1,3,-3,-1,-3,2,-4,2,8,-3,3,-2,-2,-8,9,-4,-1,5,-2,5,2,-1,-3,-4,-7,2,-2,0,0,-3,-3,-7,2,-1,-6,-3,},
{0,6,3,9,1,-6,1,-2,-1,4,7,7,0,5,0,-10,0,1,-1,-2,-2,-3,0,-12,-6,1,-1,-1,0,-3,0,1,5,0,-7,-2,-5,-1,-3,5,0,-4,-1,-2,1,-3,-4,-4,0,0,11,1,6,-3,6,0,-1,7,2,-2,0,-3,-1,-1,-3,5,-4,-7,-1,-3,-1,-2,4,8,-3,-3,5,-3,-6,-6,1,-2,2,-2,-2,0,6,-6,-2,0,-3,-3,-4,-6,-2,0,1,1,-12,5,4,1,6,4,-3,3,-3,0,1,3,0,3,-5,-2,-4,-5,-2,-3,-4,3,4,-6,3,6,-1,3,-6,2,4,-1,-1,4,1,0,-3,-4,-1,3,-6,9,5,4,1,-4,-2,0,6,1,1,-5,0,3,1,0,-3,-5,-3,2,-5,-10,3,8,-1,1,7,-6,-1,1,-3,3,-5,6,-5,3,-5,6,2,-2,4,1,-2,-1,-1,-6,-3,6,4,-1,-2,-5,-2,-3,4,2,2,4,7,-6,2,1,1,2,-5,2,4,-3,4,0,-6,2,5,0,-4,-1,0,-9,-2,2,6,-11,-1,-2,-7,9,5,1,5,1,-5,1,0,-4,2,-1,-1,-4,2,1,0,-2,0,-5,1,1,3,8,-5,-6,-2,0,-2,4,-5,4,-5,4,0,5,5,4,-5,-13,-2,0,-3,-6,4,3,-2,-2,-3,1,5,5,4,1,-2,1,-1,-8,-7,-4,1,5,-5,-1,-6,0,-3,6,0,3,1,4,3,-7,3,2,1,-1,1,-1,13,1,-4,3,7,3,3,-3,2,0,3,1,-4,5,4,-3,1,0,4,5,2,7,-1,-5,2,-3,1,7,-1,-1,-2,-1,2,-2,-1,1,-4,4,3,2,-2,4,3,8,0,0,-9,2,2,4,2,3,-7,-7,-11,5,7,3,1,-3,0,1,2,0,-7,9,-3,1,-1,-2,1,2,3,1,1,2,5,14,1,3,-1,1,-1,2,2,1,0,4,-2,-5,1,-1,1,2,1,-8,8,5,8,-1,9,-1,3,-7,-1,-3,2,-6,0,0,9,-2,2,-1,4,3,5,-3,-4,3,-1,-4,1,-9,6,-2,2,-3,5,-3,0,0,1,-3,-2,11,2,6,0,6,-2,-4,2,-4,3,5,0,-1,-4,1,-6,0,4,7,-3,2,-5,-6,0,5,1,-5,-4,1,0,-5,-2,-2,0,-3,1,-1,-1,1,-1,-3,-8,0,-6,1,-7,4,2,-7,-4,6,0,7,0,-1,-5,-1,-1,-3,-5,-1,2,1,-1,-7,2,6,5,-3,0,0,-2,-3,2,-1,},
{-26,24,-21,1,1,-7,-25,-6,-20,-19,-19,4,-4,-4,19,26,-29,8,-10,12,-39,26,-5,19,-16,-5,-10,-11,17,8,-25,-6,34,-23,32,-7,-20,-57,-7,-17,-24,5,30,-10,-13,-13,15,26,-17,-39,-13,18,0,10,23,27,-14,12,21,7,-3,-28,24,-10,-3,3,39,28,-31,-35,-2,11,36,-2,11,39,8,-29,-29,-4,-15,-22,11,13,4,-1,10,17,7,45,-28,38,-3,-3,12,-26,52,40,43,-8,-17,-70,12,-16,-36,-26,50,-25,-21,-35,54,17,-13,-12,10,5,-23,-4,18,22,-5,18,12,-7,-68,12,53,-3,-25,11,15,-14,-7,33,80,27,7,21,-7,-21,25,-17,28,-24,-39,4,-4,-38,-17,-3,-14,-14,-25,36,32,-14,16,-15,-4,-22,-37,-3,33,35,1,12,19,-32,-18,-27,11,7,-11,13,5,35,-6,-2,37,-4,1,-5,-9,-33,6,8,18,-27,-35,-26,29,56,11,-8,49,-9,-43,45,6,0,-21,-20,-4,-31,24,50,-12,21,12,4,27,-37,27,1,-6,-14,11,-40,-33,-12,-11,-34,12,21,10,63,12,55,19,30,-33,0,-8,-28,-36,33,13,-34,18,-29,51,64,46,-35,-35,-7,40,20,-21,8,32,-94,-50,21,17,23,1,19,-3,30,-67,33,49,18,-49,27,25,-1,17,41,36,6,16,6,17,-59,-3,44,30,-25,24,3,-7,7,-28,2,22,15,-48,-13,17,-16,11,22,-7,-5,10,15,-6,-7,-11,-21,-21,-34,-59,22,9,2,8,-33,-19,26,-4,-7,47,-24,-48,72,14,-7,-5,-7,5,-27,-25,12,12,-25,-28,14,4,-14,5,-9,-18,-33,-12,37,29,-33,-68,-35,-9,-15,-3,25,-9,-12,10,6,9,40,26,-16,-58,-26,7,18,-2,-18,34,-14,28,-25,34,-17,2,-13,-11,-17,-8,18,-6,-36,-31,38,25,49,-15,-15,-4,3,7,-24,35,-24,-15,-63,11,-11,35,5,-14,10,-14,-43,-26,-43,-14,14,-25,59,27,-22,-26,-3,4,-42,11,-18,-13,-32,16,11,25,-10,9,-69,-18,-84,-2,29,-31,2,-23,-11,7,41,17,-3,-23,-22,-22,51,-58,-2,-6,4,-27,42,37,-25,54,-5,16,25,10,-27,-7,13,-30,-21,-6,28,19,4,17,11,1,15,27,-32,-15,-22,16,37,39,5,-36,12,21,-44,12,81,-39,1,-22,37,7,-3,-43,28,26,-10,56,21,10,-30,-18,-60,19,10,-10,-15,-11,-46,47,57,9,23,4,41,-54,12,20,25,14,-29,11,34,-2,-4,},
{-1,6,9,-6,-33,21,19,-2,61,-11,19,-14,2,16,1,-31,-35,8,5,25,-11,-46,1,45,57,-18,25,14,-11,20,-1,-4,-3,-48,-21,14,-24,-8,24,1,34,-22,-2,-22,-17,7,17,-6,17,-15,-61,-3,-13,-31,3,2,14,36,1,42,-7,30,-6,-36,-13,-9,-17,-35,16,18,-12,7,-7,-18,28,16,16,34,54,4,-17,1,-9,-16,47,-30,-35,-8,18,65,27,37,-15,-66,1,31,4,24,-3,4,-11,7,0,40,-8,52,6,2,-19,-29,12,28,28,6,-8,13,-25,1,34,26,20,-13,18,8,-5,6,-19,13,2,93,-4,5,-59,47,10,23,-6,-9,-11,-7,1,-1,-32,-47,13,-30,11,-12,4,-7,47,32,-12,11,49,-22,-41,0,22,-26,27,43,-6,-26,-5,-28,0,45,24,23,-27,-19,-30,6,-12,12,-6,-39,-25,3,17,3,22,-30,-3,-30,-8,-18,16,4,22,-31,4,-39,-19,-12,6,-17,34,-2,48,3,-29,-3,-24,7,12,14,-53,-14,-29,32,33,-4,-52,-34,-24,9,17,13,43,-27,-4,9,32,48,25,-12,-46,-52,17,-6,-3,-23,33,10,-25,5,-48,26,22,50,-22,58,-21,-40,-13,17,5,53,5,2,-46,-30,-22,7,48,19,38,-53,21,-13,44,13,-17,17,-71,-30,-41,-17,19,71,45,24,0,14,-2,21,7,-8,-75,-9,12,-10,-27,46,6,-34,5,-26,14,-31,-6,-41,16,33,48,-40,15,-55,1,0,47,16,7,-11,45,-36,-46,5,-35,-11,27,66,-9,38,-14,59,5,9,-11,18,-10,-30,-53,-10,-1,23,-4,23,19,-1,34,50,26,26,5,-7,-41,-4,1,23,-11,-58,-27,21,-1,35,-30,23,-4,13,-19,-12,-3,9,-31,1,-8,-23,-16,61,-22,-14,-31,13,22,4,15,16,17,12,-18,-24,27,-34,-30,-1,25,23,-5,-10,-25,-24,-3,-23,-44,-2,-21,-14,8,47,9,34,-5,-64,10,-57,21,-13,-14,17,15,-33,61,-2,40,-7,20,-11,12,-7,16,-19,-51,-54,17,25,12,8,30,-3,28,27,2,4,25,-4,-2,-29,-10,10,-3,-43,-41,-7,-16,50,19,25,35,-2,15,17,-30,-32,-43,-17,-10,7,42,2,-20,15,20,-2,7,45,-22,-4,-2,79,-7,15,12,-4,-11,14,9,10,-1,10,35,-2,-32,-21,0,57,9,-23,-21,-16,-46,14,-20,48,18,-11,13,60,-32,18,29,5,-32,21,26,-10,-34,5,24,14,23,16,-22,-6,14,-7,50,11,103,19,},
};
inline const short key_512_197[4][512] = {
{2,-5,3,8,-7,0,-2,-4,-1,3,-6,-3,-2,4,-2,-8,-3,-6,-6,4,6,8,10,-4,6,-1,6,0,-1,0,2,-1,1,6,-5,-7,-2,0,-5,1,2,4,0,-1,7,6,5,5,-5,-1,-1,-2,4,-5,-7,9,3,-1,8,-2,-1,0,-2,3,0,-2,-1,-2,-2,3,0,5,0,-8,-2,-2,-5,-1,2,9,3,-3,-6,-1,8,-2,1,4,-1,-4,-5,4,-2,2,0,5,-3,-4,4,-4,9,-5,0,-2,-1,4,-1,-2,1,2,1,1,-4,2,4,3,2,-6,-1,-5,3,1,-1,-8,-3,-5,4,-6,9,4,-1,0,0,-2,-2,-3,-2,-2,-1,2,-2,2,3,0,2,1,5,-3,-9,-4,1,-1,-3,-2,-5,2,4,-1,0,-3,3,-2,1,-2,3,1,5,-5,1,2,0,7,2,-1,-3,4,-3,3,0,4,-3,-1,-6,0,1,-1,2,3,-9,-1,-4,3,0,-2,0,-1,3,6,-2,7,-8,6,2,4,-2,-1,0,5,4,-5,5,-4,-4,4,-5,-2,-4,6,3,-5,-1,6,2,2,5,8,-3,-6,2,1,4,-6,-3,3,2,-2,-1,-2,2,3,-6,-3,-2,2,7,-1,-2,5,7,-5,4,0,10,4,5,2,0,-1,1,1,4,0,-2,1,2,2,0,-5,0,5,8,3,1,-2,-2,7,-3,-3,-4,-5,0,1,5,3,-3,-1,-8,-3,-5,-2,5,-1,-1,-2,7,-1,3,5,-1,-9,-1,-2,0,-7,3,-1,0,0,-6,3,4,-1,3,3,-6,0,-5,5,4,2,4,1,-5,-1,-4,2,-2,3,1,-1,-7,0,4,-4,4,-1,-4,5,-4,-3,-4,-4,1,0,0,1,-1,4,13,-2,8,1,0,-6,2,-7,1,2,-2,3,-4,3,-3,-6,9,-4,3,-1,-1,0,0,1,0,9,6,-2,-4,0,3,1,-1,4,0,0,-5,2,6,0,-3,1,-6,-1,-1,-8,6,3,0,0,3,0,-8,1,-4,0,1,-7,-7,4,-4,-3,-1,4,2,0,3,-1,-7,-1,1,0,1,1,4,1,0,3,0,5,1,-1,1,4,8,1,0,-7,-1,-5,-2,2,-9,5,-7,0,2,-7,1,-3,3,-5,-6,-1,-9,2,8,-1,1,8,-5,8,5,-1,2,-3,1,0,-1,-4,-7,-4,-3,-3,-6,-4,7,1,3,6,-9,10,2,-2,2,3,1,6,-4,1,-5,3,2,-7,4,10,0,-7,0,0,0,10,6,1,-6,3,-4,-1,0,-3,2,-5,-1,-2,},
{5,-3,8,5,3,-6,1,-2,-1,-1,-1,9,2,3,-4,3,5,3,5,-1,-8,5,-5,-1,-5,0,4,2,-2,-1,-7,3,-5,-1,-4,-4,-1,4,3,-1,-6,1,2,2,-12,-8,-1,3,0,-3,-5,3,-1,0,4,5,2,-1,-1,4,5,-9,-5,5,-7,3,2,-1,-1,0,1,5,4,-1,-5,3,3,2,-4,-5,-2,-3,-3,6,5,1,11,5,6,8,8,-3,2,-5,4,3,0,6,6,2,-6,3,2,2,-5,2,2,3,-6,-1,0,4,8,5,5,-3,-9,-5,-3,6,-9,-4,2,-4,7,5,0,2,-1,-3,3,-5,6,5,4,0,8,-1,-3,-6,-1,-3,-3,7,2,5,-7,1,-2,-1,4,2,-4,-6,2,-4,6,6,-2,8,-2,0,-6,-1,3,2,-1,4,-3,-2,-1,-8,5,1,1,3,4,5,9,6,-1,10,0,3,2,3,-3,3,-1,1,4,-6,-9,0,1,-1,-1,-2,1,-4,4,1,4,-1,5,-5,-3,-1,-3,4,-1,-3,-8,-3,1,2,5,-2,-6,-6,-2,4,-2,-5,3,-2,3,2,-5,-1,-3,4,-3,-5,-5,-2,-1,-3,2,-3,2,0,0,4,-2,3,6,1,-1,-1,2,1,1,4,-2,-5,1,1,1,-3,-7,-4,-1,0,-4,-1,-6,-2,-5,4,2,2,1,-3,-2,1,-1,0,-4,7,1,8,-3,-7,0,-1,-6,-1,1,5,4,-2,4,3,-4,-1,2,0,0,0,-2,4,4,3,8,2,-6,1,-3,1,-3,-3,-1,2,-13,-1,0,-2,0,-2,7,-1,-8,0,-5,0,3,-3,-2,8,-1,-2,0,-1,0,0,4,1,-2,-4,-2,1,0,-4,-4,3,7,2,0,0,9,0,4,7,2,-2,-4,-2,-2,4,1,0,-8,-3,-3,-5,5,1,3,6,0,0,-6,-4,-2,-3,-3,4,0,-5,1,-1,-5,0,-3,-4,1,6,-6,2,2,-2,0,3,-1,7,4,-4,-2,3,2,-3,6,3,-7,7,4,-5,1,-1,0,-1,-2,-8,2,9,-4,0,0,-2,4,-6,0,-2,-1,-1,-1,0,-5,6,2,5,1,-2,5,-4,4,-4,-3,-2,1,0,-2,-3,7,0,-2,2,-2,1,-2,10,4,4,4,4,1,0,6,3,-3,3,2,4,8,-4,4,5,4,-13,0,1,6,-13,-5,-4,-5,0,-4,3,2,5,-3,-6,3,2,-7,1,4,0,5,5,-5,-4,2,3,-7,-4,-6,8,-4,1,-3,-2,-3,2,0,-4,2,6,5,2,},
{23,-19,-22,-19,-52,7,14,-10,-26,18,-55,-17,-26,-42,38,-16,29,-15,-52,-18,5,-34,28,22,48,-37,-20,0,49,-28,-49,20,-30,11,-17,-3,8,-16,9,38,41,-23,7,16,49,-54,-25,25,-21,34,33,-18,-9,46,-6,9,1,12,8,-1,21,7,46,24,-14,26,-8,30,-30,-25,-5,3,17,6,26,-38,22,25,10,27,-36,12,-16,32,-16,-28,19,14,-24,49,9,5,-30,-5,-25,10,19,18,5,-18,17,11,-28,18,-19,-35,19,-25,15,9,15,-24,36,29,10,-24,-38,36,-9,-13,24,-127,-1,3,15,18,-8,-30,-8,-11,-42,-36,4,7,17,-7,-6,10,25,-7,-9,-33,16,5,-11,-19,2,-3,-20,41,-5,24,-15,-28,17,24,20,-5,28,-8,-2,24,-22,30,-45,33,-57,-17,6,-45,31,10,69,-19,-29,25,-2,23,-40,-20,8,-25,-5,-4,-8,0,-28,-25,12,15,-10,40,19,14,-57,5,41,22,43,49,-13,72,-2,-5,-31,1,16,-32,-36,22,-31,-7,14,-13,14,9,-4,-34,44,-58,28,11,-14,17,11,0,-14,-16,6,-23,2,-40,48,-15,21,41,-25,-3,-4,-29,46,-86,19,11,18,-28,-9,-33,8,-25,23,2,3,-1,-18,-3,-12,-18,18,4,-42,9,-1,10,54,19,90,18,-15,-13,14,5,-19,7,-37,-6,-32,-15,9,-49,32,20,-46,-10,-22,-4,-28,7,7,22,56,-8,-42,-24,-40,-29,-12,11,-58,31,-42,15,-17,8,-24,0,-14,47,-33,-10,2,-21,44,4,13,-16,-23,6,-7,57,-20,18,-25,-39,38,-19,-15,1,-21,-8,6,-5,-22,9,-25,17,-57,25,-11,-36,103,-41,-11,35,-75,21,18,-6,-20,19,31,0,-12,29,-14,-4,13,-37,12,-29,0,7,-15,39,43,38,25,27,-28,43,16,-33,17,-51,17,-19,46,4,3,19,-7,-3,8,18,-51,-5,9,3,-6,3,-11,8,-23,14,-15,14,-16,-13,-29,-9,48,0,44,23,-1,48,-34,19,-27,-9,32,-43,-27,36,-7,29,36,-32,21,1,8,-63,7,-29,15,44,-15,25,-14,27,-29,20,6,-1,-36,-22,-20,-12,31,-27,27,-18,-12,-23,-3,-12,2,20,19,-28,-5,-52,-7,22,-26,-60,9,-39,20,-29,1,2,50,-31,-10,-10,9,18,32,46,58,15,-7,-19,-3,9,-2,-15,1,-30,-69,-7,25,-14,32,21,-33,9,-19,37,5,38,-15,7,-1,42,13,-21,9,2,15,-4,10,3,-22,3,-42,5,17,-31,-39,20,},
{-12,-3,-22,-24,2,52,22,-3,25,-42,14,51,-19,-47,47,4,-5,26,-54,26,37,28,53,5,0,6,32,-23,1,29,13,57,-6,-56,-27,-10,-67,-14,-41,-10,-10,32,-7,-8,-30,30,-70,-22,16,10,-37,-15,-34,7,6,-29,-48,3,-38,-55,4,-19,5,-23,-11,4,29,-7,8,7,61,-18,11,-2,-6,-7,-27,1,-3,4,-5,1,36,-17,17,-12,3,-21,0,-37,-27,-18,-5,-9,10,15,66,-39,4,-25,28,-8,22,16,52,52,-5,-21,-19,-11,18,5,1,-28,27,-46,22,19,-18,27,-13,13,10,-11,-33,17,-25,67,-15,19,33,-32,8,-24,-18,14,2,11,-10,-24,-9,9,13,42,-15,-62,-8,-34,-47,-30,-34,-5,28,-7,-62,30,-14,12,-19,31,25,-35,-36,6,-24,-5,-64,-4,-5,15,4,6,-26,40,-24,-3,30,7,-38,2,-17,-9,-1,23,8,-19,28,1,-42,44,37,0,34,56,11,-9,7,-9,25,4,-15,-18,-61,-21,-44,10,43,-14,-35,-30,14,-5,-20,-18,-6,-12,-8,-6,-35,-19,-15,-14,-1,0,6,29,-22,-42,-15,-20,-3,-6,59,-2,-1,65,-49,19,12,-32,70,-5,-24,-18,-2,-10,10,7,8,37,-48,-52,20,29,-15,12,-19,-17,3,-57,-64,9,31,25,-43,13,-22,-6,-24,30,-26,38,-19,27,-9,16,11,1,3,-21,6,13,-16,7,9,4,81,14,43,39,1,5,-17,-43,27,23,14,1,33,-54,48,-20,-28,-11,11,-9,-32,26,-1,10,-2,-33,19,-17,-33,12,-13,-31,-3,-37,25,-2,30,-16,-5,-9,-29,-34,-6,-13,-4,32,27,-46,11,29,9,18,34,-42,-68,-27,-16,-5,66,-4,73,8,-3,-17,21,3,-18,30,-8,5,9,5,48,5,-21,-7,8,3,18,-3,-11,-33,-18,-6,-25,-4,-28,21,8,40,-48,44,-44,30,26,-55,4,13,1,9,-10,16,-17,22,-12,1,-26,51,-23,-2,6,28,-5,45,30,20,-2,-32,25,-1,8,-36,-29,-5,6,-20,-46,-7,-52,-20,-17,-19,1,-46,2,-34,13,38,-33,-2,-7,-2,-29,-50,-1,-25,12,19,34,7,15,-13,6,34,-26,-18,38,-7,17,0,14,24,65,-1,39,-42,4,11,-1,-17,8,40,-32,49,-30,-9,-39,25,68,-5,-1,-26,-19,8,37,6,18,47,-13,25,19,14,-53,-35,31,32,16,0,-62,-24,-20,-19,-7,-7,-21,-41,-15,16,-11,12,4,-15,21,-25,-42,1,-24,25,-40,19,-32,8,-39,2,-32,-53,},
};
inline const short key_512_1028[4][512] = {
{3,4,-5,-3,-6,2,0,-10,0,5,6,-2,7,2,1,5,2,3,-5,0,0,-3,2,10,-4,3,0,-1,3,4,0,6,0,0,5,3,6,8,-2,-2,-3,5,4,4,8,-3,5,4,-9,-2,0,3,3,2,7,-8,-4,4,-5,-2,2,-2,8,1,-1,2,2,3,-4,8,1,-1,-6,6,-5,1,-4,7,6,1,-1,-1,-2,-2,0,0,1,-9,1,-2,-1,-4,0,1,-2,8,2,-3,-1,-2,0,8,-4,6,-5,-5,1,-4,-2,-1,7,0,3,-1,-5,-3,1,3,0,0,4,2,5,-1,2,4,-3,6,1,7,-5,1,2,-2,0,1,6,2,-5,0,-4,1,-3,-1,3,3,-3,-3,3,2,-1,1,3,-1,2,0,-3,-5,4,-2,4,-2,-10,3,-8,0,-8,2,2,1,-2,1,-4,2,9,6,-1,3,15,0,2,1,1,3,-6,-3,-8,6,-3,0,1,3,3,-2,-2,1,-4,-3,0,3,6,-4,1,2,-6,-1,0,-8,-1,2,2,-1,-2,-5,-3,3,-3,5,4,1,-7,-7,2,3,-4,8,1,-4,-3,-2,4,2,0,7,4,0,-6,0,-2,-1,3,2,-1,-4,-2,5,-1,-4,1,-1,1,-3,-8,-2,2,7,0,-2,1,-2,-1,-1,-6,3,6,-2,1,-3,2,-6,0,-1,6,0,-6,-1,-3,-7,2,-3,2,2,-6,-3,7,0,0,6,5,-2,5,4,7,3,8,2,-6,-2,-7,-2,-3,-2,2,2,6,-6,-10,5,3,2,-1,-2,-3,6,2,-1,0,2,8,2,-7,-2,0,-1,-5,-3,-3,-4,3,-12,1,-2,2,1,-5,0,0,-1,1,5,-2,-3,2,-1,1,1,-6,2,-1,3,-1,0,-2,-7,-1,-2,4,8,7,-7,3,3,0,-4,-4,-2,0,-1,2,-2,1,1,3,0,-1,1,-4,-5,-1,0,6,-4,-3,2,-3,2,2,2,-6,-2,-1,2,7,1,4,-3,6,-5,2,0,0,0,-1,3,-5,1,4,5,3,4,-1,-3,0,-5,-4,2,2,-1,-7,-1,1,-5,-4,9,2,2,-4,3,-6,-2,-6,-3,0,-1,-1,-4,3,2,1,-7,-4,2,-2,-5,-7,0,3,4,1,0,-8,-2,0,-1,-9,0,-5,2,0,2,1,0,0,-1,1,-8,2,2,0,9,-3,-1,1,3,1,5,3,0,-8,-1,2,7,-4,4,-2,2,-4,-10,6,-3,2,5,-2,-8,-4,3,-1,-4,4,1,-7,1,-3,-5,-6,-4,-2,3,-5,4,-2,-1,},
{-6,1,-1,-4,-7,-1,-7,-4,-1,3,10,-2,-3,-2,-1,-5,-6,3,-3,1,3,5,6,-6,-7,8,-2,-2,1,-2,-2,4,-1,-5,5,-4,-6,-2,1,0,0,0,2,-3,3,-3,1,-1,-3,3,0,5,2,4,3,-11,7,5,-8,4,-5,-1,-4,0,2,-5,0,-7,1,-10,-3,0,-3,2,-4,-3,-4,3,-6,-7,0,1,0,0,4,-4,8,-2,1,-2,1,-11,2,-7,-1,-2,4,-6,-2,-5,-4,-3,3,5,-3,3,-10,-5,13,-7,2,-7,2,2,5,0,1,-2,-2,-1,0,3,-8,-6,6,-3,-3,-6,0,2,2,-5,1,-3,8,-2,0,-9,0,-6,1,-6,3,-6,-2,9,-2,-4,-3,-2,-2,7,-1,6,-4,4,3,3,-7,0,8,-7,7,-2,2,6,1,-2,0,-1,1,-3,-1,-1,3,-4,-6,7,0,-2,3,-3,3,3,1,-3,5,-7,-4,1,0,-3,4,2,-8,0,-3,0,6,3,5,1,-7,2,-1,-4,4,6,-3,-8,4,-4,-3,4,-5,0,-1,-3,-2,-5,-4,2,-3,7,6,0,1,-2,-5,5,0,-1,4,8,-6,-1,2,-6,-4,4,1,6,-4,8,2,5,-8,-1,-3,0,0,0,0,1,3,-4,5,1,6,2,-2,-1,3,-3,6,0,1,-2,3,-1,-3,-5,-2,2,-3,-3,2,3,-4,-1,-2,-4,-2,0,0,-8,-1,-4,-4,-2,2,3,2,1,-3,-4,-6,7,9,5,3,1,-6,3,0,-7,5,1,-2,-7,0,-6,4,3,7,2,-2,-6,7,-3,1,2,-3,0,-3,1,-2,3,10,-6,-5,5,-5,-4,0,5,6,1,2,0,-5,-8,-2,1,0,-1,-1,1,0,2,-7,-1,0,0,4,0,2,6,5,5,2,8,-6,2,-7,8,2,-4,3,-1,-2,-3,0,-2,6,-6,4,1,4,-1,0,6,-1,2,-1,4,4,2,0,-7,-2,2,-3,-1,5,1,-5,-7,-4,-1,4,3,1,-8,-5,9,-1,0,0,-7,-7,-1,1,-1,6,3,0,-2,1,-1,-4,6,1,-2,0,4,5,1,0,-8,-5,3,5,3,-4,8,-3,-1,2,1,-2,-1,0,-5,-1,7,-4,-3,8,-3,1,-2,-2,-4,-7,-2,-2,2,-5,-4,-1,2,-5,-1,-4,-7,5,5,-1,-2,-2,0,-3,1,4,-1,-5,3,0,-2,-3,2,-1,7,-2,6,-7,-1,-4,2,-1,4,4,4,-3,1,-4,-3,1,-5,1,-9,2,-7,3,-3,-1,-1,-9,-6,-1,-1,},
{8,3,-48,-13,3,13,-67,-27,-43,-24,-2,-18,18,16,9,-9,6,23,-18,-21,2,-22,72,-5,-16,-35,20,7,-53,-1,43,25,14,49,3,34,36,5,-38,37,64,-5,12,-9,18,-11,1,-24,-9,-31,7,-35,3,-20,23,73,25,2,-61,18,-49,-14,16,18,10,-7,50,-36,19,-15,-9,3,-51,-12,2,-69,36,-43,44,6,9,17,-35,-30,3,7,-21,-10,32,-13,36,-44,21,35,22,-18,-50,63,0,-20,29,-54,24,-22,-12,-31,10,27,-4,-21,-26,-8,15,-48,12,-12,-24,7,-7,-42,-14,-29,-28,29,2,6,-74,1,-14,-27,-49,-37,13,-1,1,6,-33,-49,-9,12,26,-30,36,24,-48,3,35,-6,-26,42,26,39,-45,17,-35,18,16,9,26,27,0,-7,-42,17,-46,-19,27,16,-25,-51,6,-2,-11,-3,22,59,-22,-1,-26,44,-35,9,0,12,11,-4,-69,-21,-24,-58,2,22,30,-11,25,-10,-43,-33,42,23,59,8,-2,-9,-56,-3,-35,-14,21,-35,-11,-37,8,-20,25,32,-45,28,9,13,-32,-35,-3,17,3,-10,-12,-3,-10,5,-38,-47,-28,12,16,-24,-12,2,5,-47,-37,27,1,7,-40,-13,-39,-23,-9,0,-22,-35,11,-22,-50,-10,-2,19,-15,17,20,-31,4,-26,-25,2,-48,12,24,20,-22,13,-16,21,12,14,8,20,-12,-1,-29,-9,11,6,8,-20,12,-67,-29,-6,29,86,-37,-4,-18,7,-39,-14,-40,15,-14,-35,-11,-40,-20,-5,52,-9,-18,-104,-37,-22,37,-12,7,58,-18,-10,-18,-16,-18,15,-13,-22,-24,20,-8,-50,6,0,-5,-31,-13,-41,-7,5,5,-23,-28,43,-25,-9,8,6,28,-6,5,-23,-25,-10,35,-26,24,-28,-12,-79,16,0,-21,6,13,-17,-14,-28,-29,-41,-49,0,23,-16,-5,-37,2,-2,9,-51,22,-16,-13,-7,11,9,40,-8,-9,-5,-19,-5,-17,-50,3,23,33,29,-16,11,33,1,57,-65,50,41,-17,-39,-2,34,1,-9,-35,23,-16,-33,-19,-12,-14,1,7,-29,-31,8,36,24,4,-39,7,-24,-1,-31,-39,32,-11,2,-57,-66,33,5,11,-4,-42,17,-56,13,2,0,-33,23,-1,-25,12,-15,-17,22,-7,-4,-22,-7,24,-22,19,-9,10,-4,-21,41,31,51,-13,-25,27,-19,-11,15,19,29,0,-24,-46,-18,-18,-31,42,7,5,17,7,-25,4,63,0,-40,-28,-28,32,-16,8,58,-34,20,19,-15,-18,39,-10,31,32,-5,2,17,6,50,-21,12,},
{28,-30,11,-36,-3,-14,-17,48,20,29,-4,-7,-14,33,-14,-7,-18,28,-50,65,-18,23,26,-2,-11,-10,9,-53,18,9,-4,10,20,14,4,1,-31,-2,0,16,10,59,-10,-18,-12,3,18,5,32,38,-26,-26,4,-5,1,14,13,-4,12,7,-31,9,0,-6,-37,57,27,-38,14,-7,-14,-72,-7,1,-43,44,6,-26,8,-24,-12,6,6,0,-12,2,5,27,8,-25,24,-15,-25,0,3,-19,-26,-2,3,53,12,-25,36,-23,-30,-12,-8,33,45,-9,41,-30,-26,37,22,-19,-18,-15,-5,-26,6,-28,-14,3,30,-45,-19,0,32,-133,-8,-11,2,17,28,-18,-42,46,-65,-11,29,-33,-5,22,-7,43,10,-20,22,-12,-15,-28,-38,57,9,7,-26,22,33,22,25,32,-14,-8,2,7,6,37,23,11,-6,-48,-21,-42,39,27,-6,2,-57,63,-34,20,-20,51,-21,-23,32,-34,12,-2,48,-21,-14,-5,-43,-29,3,-3,4,-15,15,18,-20,-13,-9,-12,-7,8,-28,-19,32,40,-16,-36,27,-23,-9,5,30,-50,30,9,-3,12,22,9,-3,45,16,-13,16,11,2,29,-27,24,-2,-18,-2,-29,9,-13,68,-16,10,-58,-13,9,24,-19,8,-17,2,-4,-14,15,-11,-8,23,-4,-21,45,22,11,9,-13,48,10,-12,-1,15,-22,-7,-3,-26,6,3,-31,6,22,-27,72,22,-8,0,-15,45,-2,53,-16,-1,19,-57,13,22,-14,25,-24,-41,28,-27,-29,-20,78,-1,-24,-29,-36,-56,-22,37,0,-25,-20,1,11,-13,17,-22,21,30,3,-28,8,-37,12,24,35,-35,15,9,-57,44,-17,-30,-7,17,-35,25,-18,-10,47,14,-62,-52,0,25,41,29,38,3,-21,-65,40,3,53,57,3,50,-37,30,27,23,-26,-23,-19,-7,-24,-25,-15,29,-2,28,-11,-20,-29,-15,18,49,38,26,53,46,-51,11,11,-27,-2,40,-6,20,-15,-50,47,34,-21,-12,58,2,3,52,-27,55,30,-10,49,57,33,-2,23,5,15,11,-8,27,43,28,32,-24,2,-16,3,-30,40,28,25,44,8,-10,3,-2,-5,-5,13,19,10,1,62,-8,11,38,-21,-26,23,20,63,-2,-50,32,22,-25,23,7,-42,-10,31,-16,-18,12,2,26,-16,58,-22,-9,44,-19,16,13,20,-10,1,58,4,10,20,-5,0,-33,-32,56,-36,71,-23,-37,7,-18,-41,16,13,-37,2,31,-11,-12,4,35,-19,2,-44,-5,-9,13,-23,66,-10,65,-32,-23,15,-27,-8,},
};
inline const short key_1024_0[4][1024] = {
{3,-1,0,-1,-4,-4,3,0,2,1,-1,0,-1,2,-1,3,1,-1,3,-4,5,0,0,-3,-4,5,0,3,2,-6,1,0,3,0,2,1,5,4,1,-3,2,4,-1,-1,0,-4,2,0,2,-2,-5,-2,-1,-2,1,3,-3,2,-1,7,3,-5,-1,-1,2,-1,0,-2,-4,6,2,-1,-2,-6,-1,2,1,0,1,1,5,-3,-1,0,1,1,2,2,-3,2,-4,2,-5,-3,2,-2,2,-4,3,-2,-4,-1,0,-1,1,-1,5,-3,-1,-2,4,1,-1,4,-4,2,-1,9,-3,3,1,-2,0,2,0,1,-1,2,-6,5,1,0,2,0,-2,1,3,-4,0,-4,2,2,1,0,4,1,0,0,2,2,1,-1,-2,3,5,-3,0,0,0,-5,2,-2,-3,3,0,0,3,4,-2,1,-2,3,2,0,-3,4,1,0,5,-2,-6,5,2,1,0,6,4,0,-1,-2,2,-1,1,-1,0,-3,1,2,-2,-1,-3,2,2,-4,3,-6,6,3,9,-9,-1,4,2,2,2,0,2,-1,2,4,-1,0,1,-5,-1,2,3,2,0,0,2,-3,-2,-1,1,-2,2,-1,3,0,-6,4,1,4,7,0,-1,-2,2,-5,-1,7,5,0,-4,-2,7,2,-3,2,-2,0,4,2,-3,0,-3,-1,-2,3,1,-1,7,-3,0,-2,3,-2,0,-2,4,-2,1,-2,5,2,3,3,-2,2,-2,1,5,1,1,0,-5,2,-2,2,-5,-5,-2,-2,1,4,-2,-4,-2,-3,1,3,2,-3,-1,1,2,1,1,1,0,-3,0,1,0,-3,1,2,-2,1,-1,-2,-3,-4,2,3,0,-1,-2,-3,-1,2,1,0,-6,2,-1,-6,-4,-3,2,-1,-6,-4,3,-2,-1,3,1,2,4,-2,-6,1,4,-4,-2,-2,-5,-2,-4,0,-2,-1,1,-1,-5,1,0,1,1,-1,-2,3,3,-1,-2,-1,0,0,4,3,3,3,-6,0,-3,0,-3,2,0,-1,2,0,2,1,-6,0,1,1,-2,5,3,4,4,1,1,4,4,-2,0,-3,-3,-4,-1,0,-2,2,-3,-1,2,0,-5,1,-1,5,0,3,5,0,0,2,1,1,2,-5,0,4,1,2,-2,1,-3,4,-1,6,-4,0,-1,2,4,8,5,1,-2,2,-1,-5,1,3,3,-1,-4,3,1,3,1,6,2,4,4,-3,-2,3,-4,-2,2,-6,-3,1,-2,-1,-2,6,0,-1,-3,0,2,-4,0,7,1,1,2,-7,1,0,2,-1,-2,2,3,2,1,0,-4,3,-1,-4,1,0,-1,2,0,-3,1,0,3,-2,-3,2,1,4,3,3,1,0,3,2,4,0,3,2,2,-4,-4,1,-2,-5,-1,-1,1,-3,-1,-4,0,-1,1,0,-4,-3,4,1,1,0,-2,-3,-3,2,-2,0,0,3,-1,-1,-2,-1,4,0,-2,3,2,1,0,3,-6,-2,-7,0,1,0,-1,-3,3,1,4,3,0,-1,4,1,-5,0,-3,3,1,2,3,3,2,1,1,10,3,0,1,1,-4,-2,0,-2,7,1,1,2,0,3,2,-1,0,2,-1,-3,0,3,1,-1,4,3,3,-3,3,3,-4,3,3,-2,-1,3,0,1,-4,2,-1,-2,1,4,1,1,-1,2,1,-1,-4,1,-3,-5,1,-1,-5,-2,4,-5,-3,-3,-4,0,-5,2,-3,4,-5,5,-1,4,2,2,-4,3,0,-1,1,-1,-7,1,-2,-2,1,-3,0,3,0,-5,3,5,-2,0,-6,-3,1,0,4,4,2,-3,2,-3,0,2,2,-1,4,-1,-2,-1,1,2,-2,2,0,-1,-1,0,2,-7,0,-4,0,5,-3,3,0,0,-2,-4,0,0,5,-2,-5,1,4,-1,0,-4,-1,-1,0,2,0,-8,-1,-1,1,1,-1,-1,-3,-2,-1,-1,-1,-1,-1,2,-2,0,-2,3,1,2,-3,0,2,-2,0,0,2,2,1,0,0,-3,0,3,1,1,1,-2,-1,2,-1,3,-2,-4,-7,2,0,-2,6,0,1,1,-3,-1,-1,4,0,3,-1,1,5,-5,0,-6,2,2,-6,-3,-5,0,-2,-3,0,2,0,0,-1,0,-5,-3,-4,-1,-2,1,1,1,0,1,-3,-1,1,-5,6,-2,-2,-5,-3,0,-7,1,-3,3,-4,0,2,1,0,0,2,-4,2,1,-3,0,1,1,-1,4,6,2,-1,-2,-4,1,0,2,-3,5,4,-5,0,3,-3,-3,1,-4,4,2,3,-1,1,-2,2,0,0,0,0,-2,3,1,0,8,-3,-1,-2,2,-2,3,1,-1,-4,3,1,5,2,0,4,-1,-3,0,3,4,0,-4,4,0,-1,-2,-1,-2,-2,-2,-1,0,-4,2,-3,1,1,-1,-4,3,1,5,0,3,1,0,3,2,-5,-2,-3,2,4,-5,-2,1,3,-1,1,-3,1,-5,3,-4,-5,1,3,0,2,-4,-3,0,-1,-1,-1,0,-2,-1,0,5,-1,-2,1,-4,-2,0,-2,1,-3,-3,1,-5,0,0,-3,-1,-1,-1,3,-1,-1,-3,1,5,1,-2,0,2,1,1,},
{1,-1,3,-2,-4,-1,4,2,-2,3,-3,0,-2,-2,1,2,-2,1,3,1,0,1,-2,-2,0,-1,-2,0,3,-2,1,-2,-1,6,-1,3,-4,6,1,-1,1,-1,3,1,6,-4,-6,2,-3,-1,-2,-8,4,-3,1,-3,-2,-2,-4,0,-3,-1,3,5,4,-1,1,1,-1,-7,-6,-2,4,-3,6,-3,-5,-4,-4,-5,0,0,6,0,3,-1,7,-1,0,-3,-1,-1,3,0,3,1,0,-5,1,5,7,1,0,5,1,2,6,-1,-4,2,1,2,5,3,-1,0,1,-2,3,2,-1,0,-5,-3,-3,-2,-8,6,4,1,-5,6,-1,2,-5,3,-4,4,-2,-4,-1,2,-1,-5,3,0,4,2,-1,-7,0,-3,3,3,4,5,3,2,0,6,-2,-1,-4,0,-4,-4,-2,1,1,-3,1,3,-3,1,4,0,-3,-4,2,-1,3,-4,-5,1,2,1,-2,-1,-2,-6,1,4,3,-3,2,-4,-2,0,3,1,3,4,5,2,-2,1,-5,2,1,1,-2,1,3,1,1,-1,4,-1,3,-3,0,-3,3,-2,5,3,1,2,0,-1,2,-5,1,-1,-6,3,-3,-1,-5,-3,3,2,3,-1,2,-2,1,4,0,2,0,-4,0,5,6,3,1,5,3,-7,-4,0,-1,5,-3,-2,-2,2,-1,0,-1,-1,7,0,1,3,1,4,0,0,-1,0,0,0,-1,3,2,-2,-2,-5,7,-3,1,-1,0,2,1,0,-2,-5,2,2,0,3,2,1,-7,0,1,0,5,1,-2,0,0,0,-1,-3,2,-7,-4,-2,2,-8,0,0,-4,-1,2,7,1,-1,-2,-1,1,-5,5,4,1,-4,1,1,0,-2,2,3,4,-5,3,-7,3,0,4,8,-4,6,-2,3,1,1,-2,1,0,3,1,-2,6,0,2,-1,0,1,-3,-2,0,-1,-3,1,0,-1,2,-2,-5,3,-5,-2,-1,-1,0,2,0,7,1,0,-1,0,4,2,0,-3,-2,-1,0,0,-5,-1,3,1,1,2,1,-1,-3,2,1,0,4,-5,1,1,-2,4,-2,4,0,-1,3,2,0,5,4,1,2,-4,-1,-3,-6,1,4,-1,2,4,-3,-6,-3,-5,-1,-3,-1,-4,-4,1,3,1,-2,0,-2,2,-8,1,0,-2,-2,-2,-4,-4,-1,-1,1,-4,-1,0,0,-6,0,-7,-2,0,-4,0,1,-1,4,4,-4,-2,4,5,2,-1,-2,1,-2,2,0,-1,-1,-1,-1,1,2,2,4,-1,-2,1,-4,0,-1,1,-1,-5,1,-3,4,0,0,4,2,2,0,3,2,5,1,1,0,1,4,4,1,3,-3,2,6,-2,6,3,1,0,2,1,-3,0,-4,0,-3,1,-2,0,0,2,1,-1,-2,-3,-2,5,0,6,-6,3,2,-1,2,-4,-2,-1,4,0,3,3,0,-1,2,-1,-3,0,-2,3,-4,-1,-2,4,-2,1,-1,-2,5,1,1,4,-4,0,1,-4,6,4,0,7,0,5,2,4,0,6,3,-4,2,1,5,5,2,2,-3,3,1,0,-5,1,-1,0,2,-2,0,0,3,0,-5,-4,2,3,-1,-8,2,-5,2,0,1,-4,-3,1,-2,-3,2,2,3,-1,-1,7,-3,1,-2,2,-2,-3,2,-8,1,3,0,-1,-2,1,0,-2,1,0,-1,-2,-2,-1,-2,-1,-1,7,-2,2,-2,3,4,5,2,-3,2,-4,1,1,-1,0,1,-2,-3,-3,-4,-1,-3,-1,2,-5,5,0,7,5,4,-1,3,4,-4,0,-2,4,4,0,1,0,-1,5,0,1,3,-3,2,2,-1,-1,0,-1,-2,-1,-1,0,5,-3,2,6,-2,2,-1,-2,-3,0,0,0,-1,1,-1,-2,2,-1,3,1,3,-1,0,1,-2,2,-1,3,3,0,1,1,0,0,-3,-3,-1,-1,-2,2,2,3,0,2,-2,-5,-2,-3,-9,-2,0,2,2,-1,-8,-2,5,1,-2,3,-1,2,4,2,-4,2,-1,4,-2,-1,-2,3,-1,-1,-3,-3,3,-2,-5,3,0,3,1,-4,2,0,3,0,0,-2,-2,-2,-1,-1,-1,-1,-1,-3,5,3,-2,-2,3,4,4,-1,0,3,3,0,-4,1,2,2,0,-1,-4,5,-4,1,4,-1,-2,-1,-4,-2,2,2,3,-3,-3,1,3,-1,3,3,4,-1,-5,3,1,3,5,-2,-5,3,-5,-2,2,2,3,-1,1,2,-2,0,-1,5,0,3,6,1,-2,1,0,2,2,4,2,1,-2,3,-1,-2,-1,-5,2,0,-4,0,-2,-7,2,2,-1,3,2,-5,3,0,-3,-6,-1,-3,3,-3,-2,0,1,-4,3,1,-1,-2,2,-1,-3,-2,5,0,6,-4,2,0,4,-6,-2,0,-1,0,-1,-3,-4,1,-6,-5,-2,-6,-4,-9,0,-1,0,0,4,1,1,-2,-1,-3,-2,-1,-1,-1,0,0,-4,5,0,-3,2,-2,-1,-2,0,-5,1,-3,-2,4,-4,-2,-3,1,-1,3,-4,-1,0,2,-3,-1,1,-5,-7,1,-4,0,2,0,-2,-1,3,1,1,-2,1,1,4,-2,2,1,},
{23,-56,17,-13,6,30,-2,39,-31,12,-46,16,48,-44,16,0,2,55,10,14,-47,39,-13,17,-12,-24,-2,-1,22,6,-18,-22,-3,-15,8,41,-7,-25,-16,-14,40,44,-25,-10,10,-9,7,13,-12,28,3,36,20,-16,43,-14,-21,-15,36,10,-10,-31,49,-47,15,-3,8,11,7,-31,8,3,-7,18,-32,0,-18,2,6,-19,26,24,13,46,24,-37,-19,-1,16,-12,5,-23,-21,31,-7,9,26,23,44,-26,-5,-48,-17,-2,-13,10,-23,29,-30,-18,5,-1,-45,-8,44,16,13,-17,29,-1,17,59,-35,-3,51,-5,-4,-48,-10,7,-38,21,-2,-28,2,33,-18,-6,56,-25,-10,21,1,0,70,10,-32,53,4,11,24,-6,5,11,4,-22,34,14,10,-38,-19,39,39,-8,2,-35,29,-2,-16,-6,37,42,13,21,-24,29,-25,-4,13,27,3,80,16,-22,-25,-7,-5,39,-9,25,25,14,-4,36,-14,0,38,10,-30,-3,-58,50,2,38,-42,19,-37,-3,16,-8,-7,22,-27,23,-11,5,10,-19,0,8,6,-18,33,1,-6,32,-19,-8,-7,-3,-61,-9,-39,8,1,-29,37,43,4,-19,37,72,-30,-44,-3,-4,20,-21,-21,-9,11,1,17,18,-44,3,1,4,-50,69,6,-61,-6,21,-33,-9,22,-23,1,-17,33,46,17,-8,-17,-81,11,32,-1,10,-1,-1,-13,15,4,23,-24,36,-11,4,0,-20,27,17,43,5,-15,-13,20,28,-4,15,23,8,-5,-9,-29,-30,-6,-8,-37,9,-27,-41,34,14,-6,12,26,17,41,13,-32,18,-34,-8,22,-11,-32,-32,-24,-24,-12,-35,-5,-16,1,6,7,39,14,-8,19,-23,20,23,53,-6,-38,-4,-12,11,33,23,-3,21,-20,19,0,-8,48,24,12,4,-24,6,-38,-3,17,-17,45,15,28,29,-20,-2,-28,-20,-3,11,-16,-27,34,21,5,-6,5,-14,10,45,-47,1,-25,15,29,-8,-17,-4,10,9,-22,-21,-5,-32,3,-8,-72,-23,25,-67,-34,-29,-5,-3,60,28,-14,9,15,51,13,9,-11,4,-26,13,39,21,-20,-13,10,12,-35,39,7,19,-22,26,-7,-24,-1,50,37,-5,-20,7,72,25,-30,17,-19,15,45,-26,-13,-9,-58,-18,8,52,10,25,29,-11,-20,-8,-61,29,18,-3,-13,-26,47,-9,-28,-6,32,-32,26,-10,-20,6,-24,-4,-8,-16,-13,48,25,25,28,2,18,25,-2,11,-41,19,-15,-22,25,-25,58,-10,-20,-32,29,1,6,-42,-23,-3,-22,-27,-51,-4,6,-5,21,28,27,16,30,-4,10,0,-17,-13,-27,-9,50,-18,-19,-14,-9,-20,32,-23,-20,-8,-25,20,-23,25,-7,-39,3,17,-35,10,-20,-70,-16,-10,13,-18,5,20,-16,-11,-15,36,-5,8,18,-41,-18,34,61,-20,-26,9,-50,71,34,-39,-56,-15,-1,-10,5,14,-20,-25,-22,24,2,47,-14,-6,28,-2,19,22,48,-4,4,-8,-9,8,44,-21,-62,-26,0,40,-10,-74,45,48,4,-38,-39,-30,-12,-29,-21,-20,-10,-2,9,36,0,-27,22,48,-14,5,5,0,16,-18,-25,-45,47,7,13,1,26,-39,8,-20,7,-5,-6,-23,11,-4,-32,5,15,-17,8,44,14,3,9,8,7,-19,-23,-5,19,11,31,17,7,28,-21,48,-8,21,-10,3,-38,-46,71,24,42,6,25,-32,-24,13,12,-42,27,-33,47,30,35,-45,-44,1,-1,6,-34,1,8,12,25,-28,-7,-12,-4,15,7,-45,12,-10,-56,24,34,-36,-36,-39,42,-13,-18,-11,-41,1,-63,28,-5,-34,50,1,0,-44,-3,15,22,8,-27,-23,-24,13,24,-20,-22,-52,-4,0,20,-24,46,7,1,34,-12,-13,-5,-19,16,2,24,47,-19,9,14,18,13,-22,-15,-24,8,-5,6,45,44,16,23,25,-1,22,-3,-37,-4,6,-3,-16,-3,17,-32,20,-37,-54,-30,-6,-12,41,15,-30,-34,55,-42,3,-11,16,-17,-20,-10,-45,-6,-8,1,-19,-84,-1,8,-27,-40,-14,6,12,14,-12,-6,-65,-22,34,-10,-9,-37,9,41,-2,-12,12,-37,2,24,6,-2,-13,26,-13,23,25,-25,-42,-37,39,24,0,72,29,-26,-59,33,22,0,42,-23,-1,3,-11,33,17,5,28,10,-23,18,2,-29,-26,19,-12,-5,15,8,-24,-3,36,11,-15,4,6,-2,6,8,-57,22,-10,-49,-10,6,13,-1,-4,-17,-30,4,-67,4,-12,-4,-27,-64,-34,-6,-7,-20,65,-31,8,-13,-7,-66,-23,5,29,11,-38,-27,30,-37,15,16,-27,33,-53,-3,37,-7,15,5,31,4,9,-41,53,28,-45,46,16,-7,-24,20,-35,23,-26,5,-20,-11,-27,15,42,32,-12,22,11,13,-43,24,14,59,3,-3,-52,1,-8,-15,19,-12,14,-14,-29,-3,2,-9,-18,-24,-33,-35,-5,18,-33,26,-6,17,35,10,-32,-49,17,25,-18,-36,-8,21,6,-13,-14,-10,-14,-32,-64,29,12,-25,13,21,-56,21,-16,-30,-8,-31,7,-46,22,43,-19,-1,-1,-20,-42,29,-12,9,-2,},
{17,-28,12,29,-39,49,-39,-4,36,14,-28,3,-52,4,-36,2,10,11,-9,10,-2,4,12,5,2,-39,-54,10,-10,-49,15,-23,-7,22,-3,-31,-8,27,-12,-30,18,29,-31,42,23,-32,3,16,-27,27,-50,-14,-4,-4,-1,-12,-13,-23,38,14,57,0,8,12,56,34,7,-19,5,17,30,21,18,23,28,15,3,-4,11,-28,31,41,-21,6,-1,-47,26,-32,4,19,41,1,-12,-29,21,4,22,16,30,9,-13,-14,-13,2,-41,-11,-48,7,21,25,-18,2,-16,-22,46,16,-12,20,3,38,-25,-10,-27,-14,-4,14,16,44,29,0,12,1,-25,29,-18,85,32,-16,-24,16,10,-6,-58,10,5,15,-3,-7,-13,39,45,9,20,-18,76,-13,-13,40,-9,-10,11,-12,12,46,0,-16,25,31,-22,19,24,62,20,14,25,0,31,-14,14,-17,8,-48,60,-15,-30,-19,21,-36,36,-43,-2,-18,-8,-40,5,-4,7,53,23,32,-9,-32,-11,-27,-7,-9,-1,27,9,23,16,1,-5,-2,-5,-32,0,17,5,10,2,-53,-19,-37,-3,30,13,7,28,-23,-9,21,34,0,-32,-2,-57,54,14,-7,-2,28,-2,59,-24,16,0,-17,47,-14,-1,-12,29,8,30,-6,30,42,2,23,0,8,4,55,-11,43,-5,-38,4,47,-33,8,-13,-17,32,-50,-41,12,31,-6,34,-6,35,-15,-20,-43,-28,-47,-3,13,2,-3,-37,24,-21,-40,-55,17,-47,16,-28,11,-5,6,9,1,31,-15,57,43,47,12,-3,-16,-5,-14,45,-11,44,28,-51,3,-31,-6,19,-1,6,0,-11,-17,-6,40,-33,33,-5,46,-8,26,-1,13,-32,-11,-1,-8,20,29,-32,12,-13,18,21,-23,-54,-39,-37,11,22,12,14,16,-10,5,-9,33,0,-10,-21,1,-55,3,-1,-12,-19,14,23,3,-14,-36,29,-28,22,27,-14,2,-49,-12,0,33,9,-1,-11,79,9,-5,-48,23,-9,-26,-22,-9,30,9,-13,-22,3,27,-21,3,37,18,29,6,13,-38,-59,5,-5,-2,32,41,-7,-9,8,-6,-30,8,12,-33,-7,-42,-29,-4,-25,31,-8,15,13,8,50,25,26,3,-12,-26,-8,10,25,30,73,28,-47,-5,20,14,25,-2,29,18,-32,-7,-6,26,-35,3,28,-5,27,-15,-7,-30,6,47,-3,-14,8,-56,19,19,49,11,13,-6,32,8,-58,-36,73,-40,24,15,-36,4,32,13,47,-28,-50,-37,24,33,-40,-6,-10,-16,-3,-39,-32,4,35,-12,-68,7,9,-1,26,-9,-20,4,11,2,-28,16,-13,6,-24,-65,-42,31,6,-38,-36,-52,-1,13,-30,-19,13,-7,7,21,3,30,-22,-14,31,14,14,-22,9,31,-55,-44,48,-10,2,0,4,-40,36,-9,43,45,34,5,21,7,-3,3,-19,-6,-8,13,73,-21,35,1,-11,-17,8,-25,4,4,1,61,-1,-9,10,-2,-10,14,2,13,19,26,-7,-1,11,1,-13,4,-22,-7,-21,3,-8,-21,-39,-19,-8,17,-32,9,-18,-10,-1,7,-49,1,-37,24,-7,7,2,-58,1,-24,-3,59,31,31,-17,10,-77,3,1,13,-24,-25,-7,28,38,-9,-30,-7,-13,36,24,0,18,-63,1,-12,-11,-6,-13,60,26,57,-7,20,23,20,19,-23,-3,-13,-7,3,-5,23,-15,16,54,-33,54,-31,-8,22,26,-33,-24,4,18,-1,-23,-68,-14,-42,-4,21,-35,3,-45,-46,-2,-18,1,-26,-1,-3,32,-56,-25,6,-2,-17,-34,40,-4,-39,-17,-2,36,-9,32,-31,22,-8,-8,30,-35,17,23,-22,20,-26,-6,26,25,21,28,0,48,6,-30,12,17,26,-17,4,-24,29,12,-6,76,21,8,1,-4,13,6,-12,-16,34,34,2,8,38,-13,0,34,-13,0,40,1,0,-21,9,0,8,55,-35,42,-24,55,-17,-2,18,2,-22,-15,-31,7,-19,-25,-13,-29,14,21,-16,-24,-18,5,-29,-26,-4,-3,11,13,20,-15,21,35,-39,-20,3,-22,-15,43,-21,-8,-43,7,-9,-14,9,15,16,-17,-1,18,-32,3,-24,31,17,28,36,-23,8,23,-11,-35,-3,37,-39,15,-4,-16,26,-39,17,20,2,28,53,-51,-20,45,25,21,21,-39,3,3,38,4,39,-23,-24,-19,10,-12,-24,-21,10,-17,26,-22,8,0,-9,-5,29,0,-10,-13,0,-23,28,5,17,4,-14,-96,-68,-13,-42,-56,-10,-22,11,20,-12,34,21,19,-14,-35,-3,26,-9,13,-31,25,21,3,0,5,-42,20,8,1,-43,-18,23,-41,18,-30,24,-14,27,-19,-1,42,-18,55,28,-3,-2,8,-23,7,-1,-62,-32,71,-23,-13,-8,-26,-55,16,29,3,5,-6,23,-5,-15,70,3,3,-32,10,-18,-49,2,-46,-25,-31,48,21,-26,26,-27,-14,-30,-15,-50,6,-8,-39,35,-50,57,-25,-7,13,25,26,-7,-5,35,-2,20,-71,-22,-8,-14,-20,49,9,-6,1,0,-44,1,10,25,28,-16,0,-5,14,-10,40,19,42,14,13,-6,-37,-11,-72,-73,-20,20,-23,20,-17,-17,23,12,},
};
inline const short key_1024_1[4][1024] = {
{3,0,-3,3,2,6,-1,2,-2,1,-1,-4,-3,3,4,3,2,4,-1,-2,2,3,-1,-4,5,4,7,-4,-3,4,-2,1,3,2,1,1,-3,2,-3,5,-1,0,-1,4,-3,-5,-4,4,2,-4,3,-4,1,-1,0,-3,2,0,-2,-3,-6,0,-1,1,1,5,3,1,5,1,-4,-1,1,1,7,-1,3,2,1,-2,3,2,5,6,-2,-1,2,1,-3,-3,1,-4,0,-1,-2,0,-1,-1,-2,1,-4,0,1,-2,1,-1,-1,2,-1,3,0,-3,5,2,-1,4,0,1,3,0,0,2,-3,4,4,1,1,-2,-6,-3,0,0,-6,-2,-1,1,-1,0,2,0,6,-2,2,-2,0,3,-1,-2,0,0,-2,0,6,-2,2,0,2,-1,-1,3,-2,4,5,-1,-2,0,-6,1,1,1,6,-6,3,-3,-2,-4,3,-1,1,3,-5,-4,2,-5,-4,0,-5,-1,-1,-3,-3,3,-3,5,0,-2,-4,-4,0,0,1,-1,0,-1,2,-1,-2,2,-1,0,1,-1,5,-4,0,-1,2,0,3,0,2,-1,-2,0,-2,-2,-1,0,3,-1,0,-1,2,0,5,4,1,2,6,-5,-2,0,-5,3,-2,-4,1,0,2,6,-2,1,2,2,-2,-1,1,1,-3,-1,-1,-6,2,-6,1,0,4,0,4,6,2,-2,1,-2,-4,1,0,-3,5,1,-3,2,1,1,1,-1,3,1,1,3,1,3,1,-2,-2,0,-2,2,-2,-1,1,-3,4,2,1,-1,-6,0,1,0,-1,2,-1,0,8,-3,2,-2,-2,1,0,4,1,-1,2,4,1,3,-2,-2,1,-2,1,-2,1,4,-6,-1,1,0,-1,0,-1,4,-5,0,-2,-3,-2,3,3,-2,1,-3,0,-7,1,3,-1,8,2,-6,0,3,1,2,2,-1,0,-2,-1,-3,-4,-6,3,2,-4,2,4,1,-4,3,-2,-1,-3,3,2,8,3,4,-2,3,-4,1,1,-4,-4,-2,0,1,0,-6,2,0,-1,-3,0,-1,3,-2,0,-3,1,2,3,1,3,1,-2,-1,-1,2,-5,5,1,1,-3,-1,2,2,1,3,-2,4,2,-1,-5,-1,1,5,1,-3,-1,-1,-3,3,2,0,0,2,4,1,4,3,-2,-5,0,-7,-2,3,7,-3,2,1,0,1,1,-2,3,-2,-2,-1,-2,1,3,-1,0,-4,2,2,-1,0,-2,3,-5,7,3,2,-5,4,0,4,-7,-1,-3,2,-1,3,7,-3,2,0,2,-1,1,-1,-1,0,-1,-6,2,-2,-5,0,-3,-1,-1,-4,-4,2,-4,0,2,5,3,-4,0,5,-1,-2,3,0,-5,5,-3,-4,4,0,0,-3,3,4,0,-5,3,-2,5,-3,-3,-4,0,-8,1,-5,1,0,3,2,0,-1,-3,1,-1,1,-2,1,1,-1,-1,-1,1,0,-1,-2,-1,4,3,4,-1,0,1,0,2,-1,2,-5,-3,3,2,-1,-1,-2,5,4,-1,-1,3,3,-2,4,2,0,2,-2,2,-1,-2,-3,-2,2,-5,1,-3,-6,2,-1,-3,-1,-3,3,3,5,0,1,-1,3,7,6,1,2,-3,0,6,1,1,1,-1,7,4,-1,-1,3,0,-3,2,-2,4,0,-2,6,0,7,-1,-4,1,1,6,1,-5,1,5,3,0,6,-1,5,0,-6,-1,-2,-4,2,4,1,0,2,-2,1,2,-2,3,-9,-2,3,3,1,-3,1,1,-2,3,-4,0,0,-2,1,1,-4,2,4,-1,2,0,3,1,0,6,-3,-2,-3,5,-5,1,3,-5,1,2,0,-4,-1,3,2,-1,0,1,-2,-3,4,-4,2,-2,-5,1,0,0,-5,5,-1,1,-2,-4,-1,1,-1,0,3,-3,7,5,6,-1,0,-4,-3,1,0,0,3,1,2,5,-4,-1,-7,-6,5,-2,4,-2,0,-2,1,-5,3,1,-1,-2,1,-3,-5,3,2,-3,-2,-3,-2,4,-1,3,-1,-1,2,6,5,3,-3,2,-4,5,2,1,2,2,-3,-1,1,0,2,-4,2,4,-4,2,-2,-1,-1,3,2,1,-7,-5,-1,1,-1,0,-1,-2,-2,-1,-1,3,0,-1,0,-1,-3,-5,-3,4,2,-4,-1,5,4,1,-5,-4,-2,-1,-1,-6,-2,-1,2,4,-2,2,-4,-1,-1,3,3,-4,6,1,0,0,1,8,1,-6,1,5,4,2,3,1,3,2,-2,-3,-4,1,-1,1,0,-4,4,3,-1,1,-6,-1,2,-2,-2,1,-1,-2,0,-3,1,0,-1,3,-5,3,-3,2,-4,0,-1,0,-4,0,-2,-4,0,3,1,3,3,0,-6,2,-2,3,-3,2,2,1,-3,0,3,-4,-4,-3,2,4,0,-2,-1,2,-4,-2,0,-1,-3,4,-3,3,4,-2,2,5,-3,2,1,2,-3,-2,0,3,-2,-2,2,-2,2,-4,-2,3,0,2,-2,-4,-1,-4,2,6,-2,2,3,4,3,0,0,-3,-5,-4,-7,2,-2,1,2,0,-1,-3,10,3,-3,0,1,-1,-2,0,5,-1,0,-2,0,2,-3,0,1,-2,-5,-2,-3,0,1,4,3,-3,0,},
{-2,2,1,2,4,-3,-2,1,-2,0,-2,5,0,-3,1,-2,2,-5,-3,2,1,6,-3,-2,0,-4,-2,3,-1,0,4,-1,0,1,5,8,-1,-1,-2,1,0,-2,1,6,-1,-2,-2,6,1,2,-2,3,-2,-8,-1,0,-2,3,0,3,-4,1,6,1,1,0,3,4,0,-1,-2,-2,4,1,-3,-1,-1,-1,-1,0,-2,1,-1,5,-2,-3,-1,0,0,5,2,-1,2,1,-4,2,-1,1,0,2,-5,1,-4,0,-1,1,1,-8,3,0,-3,3,1,2,8,-1,4,0,1,0,-4,3,0,-1,2,6,-2,-3,-2,1,5,-2,2,1,4,-3,1,4,1,0,3,1,-8,-3,-1,-1,4,7,-3,-2,-1,1,0,-2,-5,2,0,0,-3,1,-2,5,3,-1,-1,-1,-1,4,-2,2,4,1,-1,1,-2,1,0,-1,5,0,-1,5,6,-5,0,3,-2,1,-8,0,4,5,-2,-1,1,-2,-4,-4,0,6,3,2,1,5,0,-3,0,1,2,-4,1,5,-2,-2,2,-1,-2,-1,0,2,-1,0,-4,1,3,-1,7,3,-1,4,1,0,-1,2,-1,3,-1,5,7,-1,-1,0,-1,-1,-1,2,4,1,-1,-1,7,3,-5,-2,-2,1,-2,7,3,-3,2,3,-1,-3,0,-4,4,0,-3,-4,-5,1,1,-4,0,0,-2,2,2,0,0,-1,5,0,1,2,1,2,-3,-3,-1,0,-4,4,4,2,4,0,1,3,-1,8,3,-1,5,-7,-3,2,3,2,1,0,-4,3,3,1,4,-3,4,-3,5,0,-1,-1,-2,9,2,2,-3,3,-5,4,-2,-5,7,-1,-1,-4,1,-5,-4,1,1,3,1,-1,-1,-1,0,-4,1,0,-2,0,7,0,-3,-3,-1,-5,-1,4,-4,2,4,-1,1,1,0,-4,2,3,-2,-1,2,-2,0,1,1,1,-3,-3,1,-3,2,2,-1,-1,0,0,-4,1,3,-2,-1,5,-3,-2,2,-5,-4,-2,1,-3,2,3,-4,0,6,-3,-2,1,3,-1,1,9,1,-4,0,1,-2,-2,3,2,0,3,-3,-5,-2,-1,-2,-2,-3,-2,0,5,-3,2,0,0,4,0,-3,2,-3,-1,-4,3,-6,0,6,1,2,-2,-3,-1,-2,2,0,-1,1,-2,-3,-3,1,-2,-1,0,1,2,-5,1,-7,1,-2,9,-3,-3,1,5,-2,3,5,-3,-1,1,2,-3,2,-2,-4,0,-3,1,2,-1,-1,-4,-5,-3,0,0,1,2,-2,-1,-2,0,2,-2,5,4,-6,3,1,-3,3,-1,-1,1,4,2,-2,1,-3,-2,2,2,2,3,-3,-1,-3,4,-2,-2,-1,1,-2,-6,-2,2,2,2,0,5,-1,0,6,-4,-4,2,1,5,3,-1,-3,0,3,2,3,2,-5,-5,3,-6,1,-1,3,-1,-1,1,4,2,1,3,-1,0,-3,-1,3,6,3,3,2,0,-1,0,-6,1,-2,5,-4,2,2,2,-4,3,4,0,-2,-2,-1,3,-1,-2,1,4,4,-3,1,-2,2,1,3,-1,-1,5,-1,2,2,-1,2,1,0,2,-1,-2,1,-3,-1,-4,-2,2,2,1,-3,0,6,-1,2,-4,4,0,0,1,-3,1,-3,-3,-1,-4,4,-3,-5,-4,0,1,-2,0,2,3,2,0,-2,3,-1,-1,1,-2,2,-5,-1,-1,1,-1,4,-7,-1,-1,7,2,2,6,5,-3,1,1,2,-2,0,0,0,-1,3,1,5,0,-4,1,1,0,1,0,1,-1,-1,2,4,-3,0,1,3,4,2,3,3,2,5,0,-1,2,2,-6,-2,5,-1,-2,0,5,-3,-2,-2,-2,0,-4,2,3,2,0,1,0,3,4,-4,-7,0,0,-6,2,-2,0,6,-2,-4,2,-5,-3,1,5,-1,2,0,1,4,2,-1,0,1,-1,-2,1,-1,-1,-1,1,-1,0,2,1,3,2,-1,-2,0,-1,-3,-4,2,-2,-2,6,-3,-2,-2,-6,-2,1,-2,0,1,-4,-5,1,0,1,-1,-6,-1,-4,-3,1,0,2,0,-1,-2,-4,-1,0,-3,4,2,-1,-6,-1,-2,0,-1,2,0,1,-2,-4,-3,-1,0,-7,-3,-1,-1,2,1,4,1,2,-3,0,0,4,0,1,2,2,0,-1,2,2,2,3,-3,4,-1,-2,-6,-2,4,0,2,1,-1,2,-2,4,-2,-2,-1,0,2,2,-3,-3,0,3,0,-2,-7,-3,2,0,-6,-1,-1,-3,-2,0,-2,4,3,1,2,0,3,-2,-1,1,0,5,-1,1,1,1,-2,0,-4,1,-2,-2,-1,-4,3,1,-2,0,-4,-1,2,-4,2,2,3,3,-1,-1,2,-4,-4,5,-3,-1,-1,0,4,-2,2,2,4,-2,2,0,0,2,0,-2,-1,-2,-3,2,3,2,1,-1,1,3,1,0,0,2,3,-3,4,-3,1,-2,-1,-9,0,1,3,-5,2,-2,2,7,1,4,-3,2,-6,-3,-1,1,-1,2,1,0,0,3,-2,0,3,-1,-1,3,-4,-1,3,-1,-2,-2,-1,4,-1,-3,4,5,-1,3,3,-6,-3,-3,-2,1,},
{-44,-52,-61,-29,-24,-3,-17,39,-27,20,-17,4,-1,23,-21,41,-42,-20,-6,-17,-10,13,-15,24,-4,-4,-4,-33,17,33,52,29,-9,-64,-12,-15,48,24,-29,3,7,-59,24,-24,-10,34,-13,-24,19,7,-27,8,23,-7,30,-18,-4,17,34,-4,17,-2,-31,-31,19,41,-7,40,-16,29,-54,6,24,-29,26,45,21,-40,1,-62,42,12,33,12,1,-17,37,14,64,-22,29,-28,-34,-21,-17,20,16,-9,-6,5,4,-12,21,44,-17,8,-32,-26,-56,4,-10,38,-20,10,-40,7,32,24,-23,-24,4,37,-61,-35,-39,8,39,28,3,19,26,44,32,-13,-51,-27,18,-10,0,34,1,-41,19,-22,-9,-12,-46,-6,12,24,26,14,-34,-6,64,-11,-24,-20,-4,5,-60,-7,-51,37,-50,21,4,-3,-8,-22,64,-6,-15,-18,-35,-6,35,-7,4,-36,-11,-6,24,16,46,6,43,-36,-3,-37,36,21,8,-60,-11,-21,-13,33,-32,9,-8,14,-22,25,-6,2,-44,-31,-27,7,-44,-8,-51,3,-23,-23,16,-57,-33,10,20,29,-15,-23,24,2,61,4,-53,-38,24,0,7,18,1,46,7,-58,-29,-3,-3,49,-19,47,35,6,30,45,23,89,-24,-9,-30,19,-39,18,-47,27,1,33,-29,10,-3,-17,17,15,-36,-1,-34,-8,22,-64,-44,-13,-36,18,62,-34,21,-26,36,12,-29,-1,39,-37,43,7,15,-71,-7,23,48,3,-7,12,-8,53,29,69,22,0,-1,33,-34,10,-14,23,3,49,-26,-35,12,22,36,-40,53,-20,18,-53,-5,-19,44,-18,-11,-25,-23,-46,29,-4,24,1,36,54,-4,31,14,-1,0,-20,-20,58,20,28,-21,-7,-6,-27,-11,17,-49,-5,34,-14,-4,1,-30,17,4,-24,-37,30,-34,37,-20,-51,62,6,-22,-79,-36,-5,2,33,15,-30,-29,-7,17,-41,-28,7,-39,-25,-8,16,-3,26,14,26,12,-1,-48,12,0,33,-10,29,5,-16,6,2,14,30,-21,19,-14,4,19,4,18,-8,-8,-13,42,-45,14,31,22,-29,50,-21,20,8,-1,-25,-5,-19,21,-31,0,-38,0,-31,-28,-17,13,-4,-35,25,-32,-20,-3,-21,-14,36,-7,-24,-19,5,-57,43,24,2,19,-29,-28,6,51,-14,60,-34,5,-29,3,-20,20,-30,-4,-10,-10,-12,7,-9,40,-4,8,-7,-31,13,-11,-25,-11,15,17,43,-51,34,-9,13,-42,3,-42,12,-51,50,16,16,-22,2,15,13,-25,32,-26,1,4,-17,-22,-11,32,-7,44,8,17,-63,-6,-8,43,-10,-29,-81,-20,-21,-39,-8,7,-5,26,-9,-12,-8,-21,32,10,7,-17,4,-3,32,-24,-4,-11,-28,19,8,11,5,15,4,69,2,-21,-15,21,26,11,-55,0,-61,-6,-4,29,-16,-30,-59,31,19,47,-13,72,7,-48,13,-10,-33,-8,-8,29,14,-32,-36,19,15,-2,9,-55,18,-16,16,3,-3,-23,38,-5,-13,-27,8,-26,18,4,-1,-26,-10,13,9,59,-3,-7,7,16,-8,44,-16,-6,10,10,-2,-13,-28,-12,-53,-27,45,-14,56,14,15,12,35,-18,-31,-14,-26,-20,13,-23,-18,-3,1,-21,18,-9,18,66,-33,12,-28,27,8,-8,-31,23,12,46,-2,16,18,43,20,1,18,42,-1,31,8,28,-22,3,-5,15,-42,27,18,6,-42,-39,13,8,3,9,12,-44,35,-32,-47,-31,-47,43,14,-15,-24,-1,18,49,-48,-17,30,34,12,-24,-3,34,-12,-10,-42,41,-21,54,-47,-7,12,-21,-19,-18,8,-50,-10,-12,1,-16,37,12,25,20,-34,-29,12,-39,29,-25,-28,1,12,-29,14,-11,25,7,-6,-1,0,33,-41,1,9,-34,-34,13,-34,35,30,-1,-4,-24,-2,32,23,17,6,-34,-24,22,-25,19,-64,-25,54,-66,0,6,28,-20,26,-15,-29,-9,-28,-23,19,70,-27,-16,-8,-2,-9,19,-28,30,9,0,-41,-1,-74,46,-28,2,-13,-21,-10,31,15,48,-19,1,-11,24,20,-60,-35,36,56,-14,25,-1,0,72,-6,-1,-4,-21,38,4,19,7,27,-19,-23,4,-15,-39,-1,2,29,-10,-35,-17,-58,1,10,39,-1,0,-15,39,12,5,-14,-10,0,13,-24,20,53,-6,17,-18,25,6,-20,-28,70,-15,17,0,55,7,37,4,1,11,19,-41,17,-27,29,9,-11,42,-40,-5,-44,-28,-3,-6,-16,-4,-14,24,-62,5,4,24,26,4,-22,63,75,4,23,6,-6,6,-21,52,-36,42,-10,16,-18,10,7,5,14,-13,28,1,-18,5,15,31,-10,-16,36,8,8,8,-4,12,20,-9,32,2,-27,17,24,6,-59,-31,-2,-18,20,-35,-44,-14,-10,27,-53,-16,19,1,4,17,-17,-12,-6,-31,-23,-5,34,11,22,6,-36,-14,1,-18,43,-2,37,48,32,21,8,20,11,-11,27,-51,22,9,15,-2,17,-14,27,-4,-16,-8,32,33,8,46,5,7,6,-29,-34,-4,-42,-16,4,-33,10,-16,-4,12,-19,-21,0,-3,19,-9,3,43,-19,1,20,-20,15,-11,10,10,-34,},
{35,15,-5,-42,3,5,-41,26,25,50,-28,39,19,24,5,-35,-7,3,-4,16,23,5,-1,4,23,-33,-37,40,-2,38,29,12,9,-3,-48,45,50,7,-58,5,28,10,30,-29,18,-10,-29,24,-13,22,-12,8,-11,-4,-10,-26,-36,-17,1,7,-29,-13,29,6,-28,61,6,-21,48,-35,-34,1,32,-19,0,33,-40,-17,-18,24,30,-13,-21,-19,18,-78,19,19,-23,-10,4,-10,-32,-18,0,32,-13,-41,18,11,-12,-13,-30,30,-65,-14,0,30,-30,2,-17,-6,-8,22,-22,-15,13,19,25,-5,-37,6,44,-7,-12,9,10,8,35,-25,-18,-11,26,-36,16,17,-1,-22,27,-15,44,6,-15,14,47,48,-23,9,-23,33,-34,-14,-32,19,-12,-10,-2,-16,-52,15,-3,4,1,-18,-21,54,-4,4,16,-24,-14,-7,-4,-31,14,-3,35,-31,-22,19,-14,-28,-8,-11,9,-10,-5,-4,19,-18,-3,1,-22,9,-40,-21,39,-17,10,-14,-17,22,-72,24,34,6,19,11,9,39,25,40,24,28,40,12,-8,-35,-36,28,-36,7,16,-53,-6,-22,21,-31,27,-4,9,62,36,-14,-19,24,1,-44,-70,11,-13,-16,40,-36,-14,-7,-10,-28,-68,7,-9,-61,-27,16,-15,33,-38,-38,28,11,-46,11,15,0,-38,4,0,-30,-5,-1,-10,12,-11,-34,-17,24,16,-23,-27,14,13,-36,-4,-14,-3,53,14,-4,27,39,27,15,37,27,-34,24,-41,-10,39,32,12,2,-13,-14,-37,30,14,-11,8,-8,43,-5,-5,19,-24,1,-24,-50,-21,-25,-34,14,23,27,14,11,-60,15,-4,-8,-39,1,-1,51,-3,-22,-47,-48,-33,-11,-6,-64,70,46,-7,14,-17,14,8,-7,-29,3,-45,-12,26,5,-12,7,-30,11,-33,3,14,-9,11,21,-7,3,-13,-8,-18,-3,-5,-30,45,10,0,16,34,-16,-32,-1,-4,-5,-24,-21,32,27,19,47,-7,-6,-2,19,-11,31,-4,42,14,9,6,-1,-7,47,3,-11,-10,-42,23,-6,-3,-21,-20,27,-19,-28,16,-33,-14,-3,-20,-15,-4,-46,-13,-5,2,-9,-4,-5,-13,-13,19,-2,13,-45,-27,11,-24,10,31,21,-1,-29,-76,-5,-32,8,16,32,14,-33,11,-36,1,-8,45,18,51,34,-16,-3,-10,-48,-9,20,23,12,1,20,-10,40,8,-45,-19,40,-39,25,-18,17,6,11,2,-34,-21,9,50,-2,0,21,-12,-24,15,2,13,21,-65,-39,-67,-10,27,-19,29,8,-10,-8,-30,-3,12,6,18,-11,-23,-10,-5,27,40,-21,19,-29,-16,39,-1,-20,-19,-1,3,20,-11,19,-15,5,5,-14,4,21,-47,16,-50,-11,0,10,18,-11,24,25,1,-5,54,10,-40,9,26,-20,48,15,23,23,33,-5,21,-17,16,-38,-26,-5,23,-29,-5,10,10,11,10,13,-11,65,10,-4,-4,-10,41,-15,-7,5,-7,2,-26,-1,-1,45,-60,-6,57,14,-8,5,-36,-19,3,-1,44,12,-12,5,8,1,-19,-4,-8,0,15,-31,17,-5,-17,-5,-35,-31,-1,-1,-43,5,-10,-5,42,23,15,27,-5,22,-18,18,7,-27,25,22,-8,-17,-13,-11,-37,-6,14,8,-35,69,-36,-25,44,52,-14,18,13,-15,49,8,-11,-30,37,8,-25,14,-23,-22,-48,-28,-9,-8,21,20,-40,46,33,-16,30,1,-27,-1,15,33,-20,-14,-16,-32,-28,-40,-23,5,19,26,37,-9,15,8,4,-7,-27,-10,-2,-38,-53,2,-12,-31,23,-25,-13,-13,14,32,-7,2,47,5,-12,-5,-15,-31,18,53,5,-13,23,-28,-5,-7,8,13,-5,-19,-59,33,0,22,0,1,6,3,-26,50,32,-11,0,-16,38,-22,2,25,18,30,-38,-25,11,-33,-34,10,-22,-5,22,-9,-28,11,-10,29,-35,18,5,-4,1,-31,-12,28,-22,10,-70,-38,6,-13,27,51,-9,-25,4,-83,2,16,36,13,-12,6,-2,-21,3,8,8,2,13,-54,-5,-48,-3,-4,23,19,-7,-6,-37,-33,-21,19,2,-8,11,6,6,-6,-13,53,5,10,15,-32,-22,21,-10,47,33,14,-7,2,28,-5,11,22,24,14,15,-25,31,12,13,-5,-18,-54,32,39,5,-25,42,12,24,-9,-15,-15,-18,-38,19,27,76,-49,-23,43,-31,16,-6,-49,-42,-19,-9,-19,-13,11,-20,3,-4,67,1,10,44,58,-23,-19,11,14,12,-32,-17,-18,50,-5,10,-7,36,13,-5,6,4,10,23,15,-12,-4,26,-40,27,73,18,-3,3,-6,-25,29,12,25,-28,-2,40,-3,5,-1,-25,-14,6,-31,19,-41,-19,22,3,4,-19,-20,2,-23,1,-8,21,31,-5,-7,13,5,23,14,66,24,13,-41,23,-9,3,33,6,8,-5,-10,19,-2,61,16,6,49,-32,24,0,55,-46,-23,-21,-11,-35,5,48,-8,2,9,-8,-41,44,2,4,9,6,11,-1,-31,10,-28,21,5,15,8,43,20,3,11,47,39,-16,-50,-37,-29,15,-12,-4,0,-12,-3,12,-13,-17,28,32,-3,3,-2,25,64,45,-17,-41,15,-8,25,},
};
inline const short key_1024_2[4][1024] = {
{3,-1,2,4,1,1,2,-1,5,2,1,4,2,1,-3,-8,1,-1,1,-1,-2,3,4,0,6,3,1,-8,4,-5,5,6,3,0,4,-2,-2,-2,-3,-3,2,-2,-1,-5,-1,-3,-2,-1,-1,2,4,4,2,1,-4,-1,4,-2,3,1,-2,0,2,-2,-5,2,-5,-5,4,1,-4,2,-1,0,-1,1,1,-3,-5,-1,-1,2,-1,-1,7,-2,0,0,-1,1,-6,1,-2,2,-6,1,4,4,0,-2,0,-4,0,-5,2,-4,0,-3,-7,-5,-1,6,2,3,-2,-5,1,4,2,-3,-2,-4,-2,3,4,2,0,-1,2,-1,3,0,2,2,1,3,-5,-2,0,2,-1,0,4,0,-2,-4,-1,0,-2,2,-1,4,3,5,3,-4,-7,1,-3,1,-1,-3,-6,4,5,-2,4,2,-5,-3,-2,0,1,4,3,-1,-2,-3,3,0,-3,0,0,1,1,3,5,-3,2,0,-1,-3,0,5,-1,-1,0,2,-3,3,-1,1,3,1,-4,3,1,1,0,-2,1,0,4,1,-2,1,3,1,-1,3,2,3,2,5,-1,6,-1,4,1,-2,2,-4,0,0,-5,5,3,-4,-2,-1,-6,2,4,-1,-10,-1,4,-1,3,2,-1,6,-2,-4,3,5,-1,-2,-1,5,-1,-2,2,-4,2,0,1,-3,1,-1,4,5,-3,0,-2,2,4,3,-1,-3,0,1,-2,-3,-1,3,1,-3,1,3,-2,-2,-2,-2,-1,3,1,4,-2,0,-3,-1,-2,-2,6,3,3,4,1,0,0,1,4,1,4,0,1,-2,2,-3,-1,-1,-4,8,-1,-2,1,2,0,6,0,-1,-1,-1,0,-3,-2,-4,-2,2,-2,3,-2,-1,3,-1,-5,2,5,0,7,-2,3,4,2,3,-1,0,1,1,-6,0,-1,6,-4,-3,6,-1,-2,2,0,-3,-3,1,3,-2,4,-1,1,0,0,-5,-5,-3,-2,2,0,1,3,3,-3,1,-1,0,2,5,0,-5,4,-2,2,4,1,-2,0,-4,2,-1,4,2,1,-3,0,-5,-1,-5,4,1,1,-2,5,-2,1,1,0,2,-2,2,0,-1,-4,-6,5,-1,3,0,4,1,-1,5,1,-1,-5,2,2,0,0,-2,-1,3,-2,2,-4,-1,4,-6,1,2,4,-3,2,0,3,2,-1,1,-2,4,-3,4,-1,8,-1,-1,-3,3,4,3,-3,0,3,0,-5,-3,0,-1,0,-4,0,2,4,-3,2,-1,-2,3,2,9,-1,-5,-1,1,-4,-5,0,-3,-3,-3,1,0,-1,-5,-1,-5,3,-2,0,-3,1,1,1,-2,2,1,0,-1,-1,-2,-4,-1,0,-1,2,5,-3,3,2,0,1,1,-6,3,1,-3,2,0,3,-4,-11,-2,1,1,2,1,4,-2,-1,1,6,1,5,-3,7,0,1,4,0,4,-2,-3,4,1,8,0,1,2,-1,3,0,0,-3,-7,-2,0,1,0,1,1,3,1,-3,0,2,-4,0,3,3,-1,7,-4,-2,0,-7,0,-5,2,-1,4,-1,3,0,-4,-1,-4,-2,3,-2,1,-6,-2,3,0,-7,-3,-1,-2,-3,-1,5,3,0,5,1,-4,1,-3,-2,-2,2,-2,2,-1,-4,-1,5,-5,-5,5,-2,-4,0,0,0,-2,-2,-3,1,6,1,2,1,-7,1,-4,-1,-1,-1,1,0,-1,-2,2,-2,-1,-3,3,0,0,0,3,-4,3,0,-1,1,-9,-2,0,-3,2,-3,0,-2,0,4,7,0,1,1,-4,-4,0,3,1,-5,-2,0,0,-2,-1,1,3,0,2,1,-5,0,-6,0,-2,2,3,2,-1,2,-1,-1,3,0,-2,2,-1,2,1,-2,-2,-2,3,4,-2,-1,2,5,1,1,-1,1,7,3,1,-3,-5,6,2,1,2,-1,0,-5,2,6,9,-4,-2,0,2,1,-5,-1,-1,-3,1,-1,-2,0,-2,0,0,-1,1,2,3,-1,-4,-2,0,3,1,-1,3,3,-1,-2,-2,-1,-2,3,-2,-2,-1,-1,-3,4,0,2,3,2,-1,-1,1,-3,2,7,6,3,0,-2,4,-4,-4,0,-1,-2,-2,-2,-2,-1,-2,1,0,-1,-5,0,-1,3,1,1,4,2,7,-2,4,2,2,-1,0,-2,3,-3,3,4,0,-2,-1,-1,3,5,1,-3,1,-5,0,-1,-2,-2,4,4,2,1,-1,2,2,-3,1,0,0,0,3,1,-2,-6,-1,2,-1,0,-2,-6,-4,-1,-2,3,3,2,5,3,-8,1,0,-3,2,2,-2,2,-4,0,-3,-2,-4,-2,1,-1,0,-3,2,-5,1,5,4,3,-1,4,0,1,1,-2,-3,-3,1,3,6,4,1,3,0,-5,-3,0,0,-3,2,0,-1,5,3,3,-1,4,-3,2,-1,-2,0,-1,0,2,-1,0,2,0,1,1,-3,1,-7,-5,-2,3,2,-1,2,4,4,-4,-3,-1,2,-2,0,-1,-2,-3,2,2,-4,-5,2,5,-3,3,0,0,4,-1,-2,0,2,0,0,0,-3,1,5,1,4,5,-2,3,-7,-4,-2,0,1,-2,1,-3,-1,1,3,-3,-3,-1,0,2,-3,},
{3,-2,-3,-2,0,5,-2,0,-1,-1,-4,0,0,-3,5,5,3,2,-3,-1,-5,-3,-1,1,0,1,-1,-3,4,3,-6,0,-1,2,-4,-2,2,0,0,1,-1,0,1,1,-3,-1,3,1,0,-4,2,0,2,-2,2,-2,-1,3,0,-4,-1,-3,-3,0,-1,-5,-2,2,-4,-2,0,-1,-2,-3,-3,1,4,2,2,-2,-2,-6,-1,1,-3,7,4,1,2,-1,-4,-1,-4,-4,-1,5,-1,-3,1,-6,0,2,-2,1,-2,-1,-2,6,-2,-4,1,-3,-1,-1,1,4,-1,6,0,-2,-1,-2,1,-1,1,3,-3,1,0,1,2,-2,4,-2,-1,0,1,-3,3,-2,-2,-1,1,5,1,-5,-2,-2,2,0,3,4,0,-4,-1,-1,-5,-3,-8,0,0,-4,1,-1,1,0,-4,2,0,1,0,5,-1,-2,-1,3,0,0,1,-3,-6,3,-4,4,-2,2,1,-2,-3,3,-2,5,1,-3,4,0,-3,-1,-4,2,1,2,1,1,4,-3,2,3,-2,-4,3,1,0,-1,1,-4,-1,-2,0,-1,-2,-3,-3,0,4,0,1,-4,1,-5,-2,2,-2,-4,-1,-1,1,-2,1,-1,-4,-2,0,-2,2,2,3,-1,3,0,-2,2,-4,1,0,1,-3,-2,-2,-1,4,6,4,-1,-3,0,-1,3,-7,1,-2,4,0,-1,2,4,-2,3,0,3,3,0,3,1,-2,-1,0,-3,4,-4,-2,0,-2,0,-3,6,-2,1,-2,-1,2,2,2,4,-2,8,0,0,0,5,-1,-2,-2,5,-1,-2,-3,-3,-5,-2,-1,-4,2,-1,0,4,5,-2,0,-2,2,2,1,5,-6,2,1,-4,-3,-1,6,-2,-2,2,0,-1,-6,-1,6,-2,-3,4,-4,0,1,-4,5,5,-1,0,-5,-5,0,1,-1,0,3,5,-1,-1,4,0,0,-2,-2,2,0,-3,-1,0,2,3,-2,-4,0,-1,2,0,1,0,0,2,2,1,4,-1,-2,1,1,-1,1,4,0,2,-1,-6,-9,4,-3,-1,-5,2,0,-3,2,5,-2,-8,-3,-2,1,-3,-4,2,2,-1,-1,-1,4,0,-1,2,3,2,-3,-3,2,5,6,-1,-1,0,2,1,-3,0,-2,0,3,6,-2,-4,1,-2,-1,2,-6,3,0,-1,-2,-2,-1,-5,-3,0,-2,-3,1,1,-2,3,-1,5,6,0,-2,-4,1,4,-1,1,0,2,2,1,-1,-2,0,5,0,-4,2,-2,0,7,-2,-2,-2,-2,0,0,-2,-3,-1,0,-4,2,0,4,1,1,1,-2,3,0,3,1,1,-6,-2,-5,1,5,6,-5,1,0,-1,-3,0,-3,3,-4,0,2,-1,-5,-3,-2,1,2,-1,1,1,1,4,-3,1,6,-6,-3,4,2,7,1,3,-4,-4,3,0,3,2,0,-1,1,0,3,1,-3,0,0,-3,2,0,-5,2,1,0,0,-1,-2,-2,-2,3,-2,-2,-4,2,3,-1,1,-1,0,2,-3,4,3,0,-2,2,0,-2,-3,3,0,-1,1,0,-2,-6,-2,-2,-2,-4,-2,-2,2,1,3,0,-1,5,-1,7,-2,-2,7,-5,0,-1,-1,0,1,1,6,-3,-3,-2,1,-2,-5,0,-2,0,2,1,0,2,4,-2,0,-4,-4,3,-5,1,-1,-2,-2,-3,-1,-1,3,-7,5,2,-3,-3,3,1,-2,-5,-2,-3,-3,-1,-2,-2,-4,3,1,2,-4,0,2,-3,1,4,0,-4,-1,-3,-3,-4,1,0,-1,-2,2,-2,-3,-2,-3,-3,-2,-2,0,0,3,3,0,3,-2,1,-4,-3,1,-2,-4,1,-4,6,4,3,4,1,-4,1,-3,-1,-1,4,-2,-5,2,0,2,-2,0,1,1,1,-1,0,-1,-4,-1,4,-1,4,1,1,-3,2,-2,-1,0,4,1,0,-1,-2,3,-4,-3,-2,1,4,-5,0,-2,2,-1,2,-2,1,-2,5,1,-2,0,-4,-4,-2,5,4,0,2,4,-3,1,2,-5,-1,0,3,-2,-1,1,1,-2,3,6,-3,-1,-1,-2,2,1,-3,1,-3,2,-1,-6,0,1,0,-1,-2,5,0,1,-6,-2,0,1,-2,-5,-5,-5,1,3,-2,-2,-1,1,-1,3,5,0,1,1,-5,-4,2,3,2,2,1,-1,1,2,0,1,-2,1,-3,1,6,-6,0,-3,0,0,-2,3,2,-2,-4,-3,-3,1,2,4,-1,-2,1,0,0,-1,-4,-2,1,9,2,-4,3,-6,-2,1,1,1,-5,0,-3,-1,0,4,0,1,-1,2,-1,4,4,-5,-1,1,-3,-2,0,-2,-4,1,-8,0,1,-1,1,-1,9,-2,1,2,2,-2,1,4,2,2,1,3,4,1,0,0,-1,-3,4,-8,0,-1,-2,-2,4,0,-1,4,-2,2,2,3,-2,-1,4,-1,1,-7,3,-6,3,2,2,-2,4,1,0,-2,-1,6,0,-4,0,-3,-2,-1,6,-4,0,5,1,-1,5,1,1,0,0,1,1,-1,-3,5,-3,0,-3,1,0,-2,2,0,0,0,0,3,-9,4,0,0,-4,2,-5,-1,2,0,0,-1,0,0,3,2,2,-2,},
{5,9,-7,19,15,-9,24,-5,-38,18,30,26,21,30,36,18,12,31,-3,51,20,21,50,-34,4,-78,-15,-2,-1,-27,-25,46,37,10,19,18,-7,-50,-1,-11,41,24,48,6,4,4,25,24,-13,2,12,-7,7,34,43,-72,41,-16,10,1,-8,4,-17,-13,-1,-24,-20,-51,-40,-8,-28,-11,29,-2,5,36,2,9,9,-21,31,-21,-21,12,17,48,-10,25,-52,-12,-57,-12,-1,-17,8,-16,19,-20,5,-18,-7,-14,-21,-10,19,12,-4,-53,4,27,13,26,-17,-11,2,-27,8,-3,-12,-22,-34,11,15,-40,31,-32,-24,-14,30,-3,11,-38,1,-39,21,7,-12,-27,40,-42,15,-5,-32,4,15,-5,-3,-21,4,1,-46,-16,9,10,12,-16,-37,-11,10,23,-18,-34,-23,-14,-11,38,-25,13,-31,-21,14,8,-31,-4,-37,0,34,-2,17,-61,-21,-11,-9,-22,16,21,36,8,-26,43,-42,19,-11,15,-9,-8,13,-30,8,43,-29,17,-21,12,-41,12,50,-14,-1,-41,-8,-8,-10,8,-5,-5,41,37,11,27,-18,-5,-29,20,-19,-36,-6,4,-24,-7,4,-13,-26,-8,25,-60,-10,-8,-2,53,2,14,18,-18,-44,4,7,-34,5,3,0,8,17,16,1,8,-32,-16,32,8,41,34,-3,-13,-44,-28,15,-7,11,-24,-59,8,-13,13,27,-4,45,-6,-19,11,37,22,21,-22,-15,-42,20,44,22,54,-32,28,4,22,18,11,30,14,-5,17,14,-22,25,7,-19,-6,-46,-34,9,35,-13,11,-10,-7,-23,21,-4,-16,9,-42,-46,12,7,51,61,-15,-5,38,-7,5,-11,35,35,32,8,-28,3,-18,-29,-28,-18,-30,7,25,-32,-16,26,-29,25,-43,-3,-28,-29,25,-7,16,42,21,-20,58,-30,22,-9,18,37,43,-4,22,13,-34,3,1,7,9,41,9,38,8,25,42,-4,11,29,25,29,31,-12,4,-29,12,-14,-37,32,45,-11,-1,4,22,-14,26,29,13,40,7,-28,-28,39,-21,3,-50,-1,27,34,-35,36,-50,11,25,-47,16,33,8,4,44,-23,30,24,-19,43,-20,32,15,-45,41,-28,-30,-5,-21,-23,-20,-45,-31,-49,-46,-7,-17,5,-18,30,27,-45,13,20,-21,23,52,1,3,-48,-25,20,26,-16,11,-5,39,-20,-2,-18,-3,-5,2,-25,-36,-39,-50,45,28,-10,1,9,-48,25,-48,10,17,-16,-76,-20,-5,-26,-29,-4,-28,-4,37,-4,-2,46,-23,-17,7,-49,-36,13,-1,-2,-7,53,-24,11,-36,8,25,49,7,15,-23,8,-41,-48,4,5,-14,4,-16,-17,-38,-43,13,37,-5,-76,42,40,-23,-42,77,-15,36,-15,5,-19,62,33,2,-9,30,-20,0,26,10,22,10,-6,-12,66,-8,12,34,-3,42,29,-9,3,27,-4,24,-18,10,-26,2,5,39,-2,-20,-19,14,-13,-11,29,-21,-19,4,-13,-14,38,-31,19,-20,0,15,-5,-17,-11,25,15,36,-29,44,28,-18,-4,-4,-24,11,-1,-40,4,-18,-11,-9,-4,-30,-25,-55,-34,62,-17,-2,-12,10,40,-31,29,34,49,-22,-33,3,-12,29,50,6,5,-7,-24,-60,66,22,5,-21,-7,-11,-29,41,60,35,1,6,5,-3,13,-9,24,-26,-6,24,21,-27,48,-4,-10,-74,-55,-7,-15,42,-21,-22,-12,22,-23,-9,43,28,-27,-14,-32,-3,-20,18,45,10,-14,0,-23,-31,-51,-10,36,-15,37,33,-5,14,15,-24,-37,-49,-45,18,-18,42,37,-18,-29,16,-23,-28,-25,-12,35,0,-38,-35,-64,7,14,-7,-45,-24,35,-23,27,11,-4,-29,29,5,4,14,-16,5,-10,4,26,-10,17,-10,16,2,10,13,41,-18,25,47,4,8,12,-46,5,23,-23,25,6,16,6,8,-17,-47,29,-43,-10,49,12,5,-34,-5,6,74,-40,-10,-44,-10,-44,24,5,-60,6,-13,-13,-13,7,29,22,-26,-40,-4,2,-10,11,-25,-16,5,-16,-43,7,17,19,-26,58,-11,-50,5,15,-1,-40,-35,-36,-44,-67,32,37,39,-32,4,20,-14,11,12,1,8,31,-44,51,11,-9,12,-11,-29,-15,22,44,79,-28,-7,1,33,-23,-12,-8,-51,-85,-26,9,27,35,23,2,-10,-11,11,-17,29,-19,-3,-6,-17,28,-18,-30,4,11,-59,2,-9,-1,-16,14,-32,-5,20,-11,39,1,-15,-6,10,30,-17,-46,-19,55,-17,-15,68,29,-23,18,-25,-12,-19,-82,0,-17,-36,18,14,8,30,16,-38,7,4,16,-21,-11,88,0,34,43,-10,-19,18,33,42,-4,25,7,-43,-40,49,22,-9,-40,16,12,44,37,-34,-1,-12,15,-13,43,50,41,39,-32,8,1,4,-16,-27,-12,0,3,-5,67,-2,-18,-38,18,8,3,-13,63,-6,19,5,-2,20,-31,24,18,8,-6,18,12,-12,30,-56,4,-8,-48,-16,-8,-9,24,20,-25,-12,-16,6,-5,-9,-18,46,14,45,12,8,-31,-58,18,-3,-40,-20,-12,-2,9,-24,2,-32,1,37,-34,-33,11,5,0,-40,6,-7,-58,-1,0,0,12,-46,-36,-6,},
{55,-4,-29,13,18,20,-10,-13,11,37,62,16,-30,16,-21,-2,3,29,7,-70,-55,22,-30,32,3,-7,-33,8,-7,4,25,75,5,22,20,7,-32,25,-4,-36,22,3,-47,40,-34,3,-19,7,15,-8,11,-19,28,-47,-39,0,10,-11,-1,16,19,3,-7,-14,9,-35,-58,34,9,-9,19,8,0,1,11,13,31,-20,26,-30,7,0,-21,-4,18,-38,40,9,28,46,22,-35,31,6,30,17,13,-33,-37,-27,7,-8,25,-8,-46,-38,-31,-25,4,-12,-26,-19,31,38,3,6,-16,12,-11,12,0,-26,-34,28,28,-11,0,-27,-9,2,-14,10,-35,-12,-26,28,-21,-2,-33,56,16,-17,-36,-4,-29,26,-18,-21,63,-28,-47,-14,-45,19,-16,-42,-28,-35,1,-10,7,17,4,12,10,-4,25,-8,-24,-23,8,-11,-41,6,-2,4,36,-12,-35,-20,-12,-20,12,15,27,15,-36,-19,14,37,14,-14,39,14,-50,-5,8,6,-9,-9,48,-56,-12,3,20,6,-17,-46,-7,-58,4,4,2,-15,8,-13,-57,-26,65,-35,-29,-18,-31,-6,15,-25,-69,21,-14,42,-8,-59,5,-6,-36,38,-29,38,-23,-48,36,-13,-5,13,-13,16,-27,-2,32,24,-2,-40,-5,3,-7,-46,-13,-44,-28,23,-7,10,6,-7,15,39,-23,18,34,-3,10,8,22,-49,-20,-9,-15,-25,55,7,48,0,-50,-36,-2,5,16,-26,-28,15,39,-16,18,8,-2,-12,36,6,-46,22,0,11,-29,-48,-22,-3,11,11,-28,6,1,-15,30,31,-7,-10,27,-5,-8,-36,52,26,-17,23,-8,26,-26,32,11,-30,-6,47,-19,32,-13,-3,-7,-23,0,-41,-28,-13,7,-6,-4,13,8,-8,-44,36,43,-23,7,-40,5,17,-5,28,8,-14,-8,-6,-4,-6,-11,23,3,-5,39,6,-1,49,-21,-2,27,-17,8,11,14,18,18,64,-8,9,6,-23,5,-9,34,17,-59,27,-2,-25,11,3,-22,-30,-39,10,-42,-1,-33,35,-37,-17,-6,-6,-10,19,-15,33,60,33,-25,-24,3,-4,28,19,-5,16,-14,-19,1,12,-29,-13,3,-8,12,11,36,-26,-14,-68,-33,13,-1,-52,48,-37,18,-5,-17,-19,28,-8,4,-51,-57,-26,3,67,32,-13,12,-18,24,11,33,30,-18,-27,-27,-11,18,1,5,-19,10,-20,-32,20,8,27,-13,22,15,-38,-27,-26,-52,2,32,-9,5,-6,-29,-10,38,61,-2,9,-21,12,-9,-21,-10,42,-18,2,8,-5,5,12,-20,-14,57,28,-53,34,7,-1,-4,-53,-18,5,-14,-5,0,-34,42,-67,48,-16,10,13,-17,-27,-21,-30,-6,35,8,-28,1,26,4,-3,4,19,32,49,64,22,61,13,10,45,24,-10,15,0,15,17,-8,11,-20,-9,-71,-45,16,-14,-5,31,-58,-40,54,21,-12,5,-6,11,-20,31,25,64,-7,24,5,-9,-23,34,2,-9,63,15,-1,42,19,-49,21,-23,-27,-54,10,-19,8,21,-37,-10,-21,2,-1,-19,29,-2,36,12,21,6,16,2,38,41,7,-11,23,-41,-14,13,-6,-9,22,-8,-16,13,16,29,13,-27,-17,-17,22,-21,36,46,-26,3,-16,20,6,25,22,-8,12,-6,-69,-11,63,-45,-3,-19,-32,22,-23,47,14,29,7,-18,-60,-50,4,-4,11,59,7,-13,8,15,6,-10,-54,37,-10,0,57,16,-25,-13,10,-41,22,6,5,5,23,6,-17,10,3,-12,-19,-14,3,-9,-4,27,20,10,-8,-24,6,-4,50,5,15,-11,-22,-20,-17,-16,-29,-39,25,-9,18,-41,2,41,55,-27,29,9,-6,-4,-22,8,9,8,14,-20,-4,9,-48,38,25,30,-32,1,60,-1,-20,2,13,-5,14,12,6,-33,17,-10,5,-33,0,7,-36,12,22,-22,-28,-2,-36,-3,-16,19,21,17,29,18,34,-10,-9,22,-10,3,9,-14,-35,-19,22,-17,28,50,1,-25,-17,3,33,28,0,-2,-73,35,3,-37,5,-26,-8,-55,3,28,9,-24,-24,-70,-9,17,0,13,16,-26,-6,-34,19,30,-10,1,59,-9,86,-16,30,-31,-17,-14,-20,-45,4,5,20,12,-30,-4,-21,18,-1,-27,7,-7,-18,-27,28,-16,-2,1,0,24,-5,10,21,5,-28,31,-8,-40,-26,-23,-9,-62,29,-9,-25,59,-45,14,3,18,-15,-54,-17,49,26,11,16,-17,-18,-29,11,6,-3,16,2,22,43,41,-35,-20,-5,-56,-38,25,25,-38,4,30,-7,-22,-19,-12,18,-9,-13,7,-1,40,6,17,52,-35,23,27,10,44,0,-54,3,-10,2,49,28,-4,22,34,22,4,19,7,-9,51,-30,-36,12,-25,15,36,21,-32,-27,-3,-28,5,25,-18,59,11,-4,11,27,-53,-13,13,24,3,19,-11,-39,-36,-22,31,30,33,13,18,-6,16,32,-8,-7,16,39,5,-32,-16,-5,-28,22,-9,-17,4,2,-40,22,-5,-30,-7,-14,-6,-13,5,13,2,-9,8,20,26,36,17,8,42,12,41,-70,-13,17,13,6,57,-50,-16,-5,-18,37,5,-4,-21,33,-25,-69,-18,13,-42,},
};
}

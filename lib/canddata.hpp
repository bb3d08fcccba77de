// generated by tools/gen_cands.cpp
#pragma once
#include "cands.hpp"
#include <vector>
namespace cands {
inline const std::vector<cand> data_512 = {
{0,11u,7891,8702,0,0}, // 512
{0,18u,8741,7809,0,0}, // 512
{0,20u,7885,8819,0,0}, // 512
{0,46u,8713,8050,0,0}, // 512
{1,100000019u,8567,8255,0,0}, // 512
{2,200000036u,8427,8396,0,0}, // 512
{3,300000047u,7987,8556,0,0}, // 512
{4,400000187u,8101,8527,0,0}, // 512
{5,500000123u,8003,8563,0,0}, // 512
{5,500001148u,8334,8393,0,0}, // 512
{6,600000075u,8117,8588,0,0}, // 512
{7,700000037u,8742,8016,0,0}, // 512
{8,800000264u,8498,8283,0,0}, // 512
{8,800000348u,7909,8685,0,0}, // 512
{9,900000022u,8233,8555,32,0}, // 512
{10,1000000002u,8501,8050,0,32}, // 512
{11,1100000015u,8085,8696,31,0}, // 512
{12,1200000051u,8227,8584,0,31}, // 512
{13,1300009075u,12035,4765,0,0}, // 512
{14,1400002285u,12039,4761,0,0}, // 512
{14,1400002706u,11845,4955,0,0}, // 512
{15,1500000000u,12911,13089,0,0}, // 512
{15,1500000013u,13069,12931,0,0}, // 512
{16,1600001246u,4845,11955,0,0}, // 512
};
inline const std::vector<cand> data_1024 = {
{0,104u,8727,7859,0,0}, // 1024
{0,124u,7999,8814,0,0}, // 1024
{0,126u,8567,8048,0,0}, // 1024
{0,35u,8325,8330,0,0}, // 1024
{0,53u,8563,8119,0,0}, // 1024
{0,66u,8433,8348,0,0}, // 1024
{1,100000011u,8193,8629,0,0}, // 1024
{1,100000223u,8773,8049,0,0}, // 1024
{2,200000007u,8467,8356,0,0}, // 1024
{3,300000138u,8029,8660,0,0}, // 1024
{4,400000348u,8701,7948,0,0}, // 1024
{5,500000178u,7913,8834,0,0}, // 1024
{5,500002017u,8465,8245,0,0}, // 1024
{6,600001120u,7972,8797,0,0}, // 1024
{7,700000008u,8390,8122,0,0}, // 1024
{8,800001760u,8473,8182,0,0}, // 1024
{9,900000003u,8185,8528,16,0}, // 1024
{10,1000000023u,8835,7886,0,16}, // 1024
{11,1100000159u,8787,7890,15,0}, // 1024
{12,1200000120u,8224,8349,0,15}, // 1024
{13,1300000390u,12377,4423,0,0}, // 1024
{14,1400000691u,12171,4629,0,0}, // 1024
{14,1400001763u,12149,4651,0,0}, // 1024
{15,1500000050u,13345,12655,0,0}, // 1024
{16,1600001025u,5339,11461,0,0}, // 1024
};
}

// generated once by tools/gen_rbd_tables.py from the pinned tree; not regenerated by any check
#pragma once
namespace rbdref {
struct LinkD { const char* name; int parent; double T[16], m, com[3], I[9]; };
struct FrameD { const char* name; int link; double T[16]; };
}
namespace rbdref {
static const LinkD HyA_links[] = {
{"HyABase", -1, {1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1}, 0, {0,0,0}, {0,0,0,0,0,0,0,0,0}},
{"Shoulder_AA", 0, {1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1}, 2.688, {-0.000196,-0.003091,0.17763901}, {0.08980614,-0.000613,-0.000491221,-0.000613,0.08953714,0.0005849322,-0.000491221,0.0005849322,0.007629}},
{"Shoulder_FE", 1, {1,0,0,0,0,0,-1,0,0,1,0,0.178,0,0,0,1}, 2.5924191, {0.113166206,-0.023382,0.003832}, {0.039002996,0.0055279857,-0.022851627,0.0055279857,0.08585553,-0.002752,-0.022851627,-0.002752,0.051393528}},
{"Humerus_R", 2, {0,0,1,0.112,0,1,0,0,-1,0,0,0,0,0,0,1}, 2.327, {-0.0023899989,0.00618,0.278456}, {0.20236395,5.399998e-05,-0.011715295,5.399998e-05,0.20986895,-0.0037997814,-0.011715295,-0.0037997814,0.010329999}},
{"Elbow_FE", 3, {0,0,-1,0,0,1,0,0,1,0,0,0.304,0,0,0,1}, 1.7423722, {0.09200001,-0.005,8.7422736e-10}, {0.081661,0.0036857284,-0.00021200017,0.0036857284,0.01828449,-0.0022920002,-0.00021200017,-0.0022920002,0.09570849}},
{"Wrist_R", 4, {0,0,1,0.112,0,1,0,0,-1,0,0,0,0,0,0,1}, 2.1032, {0,0,0.0275}, {0.019432,-0.001387,-0.012652,-0.001387,0.029115,-0.001243,-0.012652,-0.001243,0.011046}},
{"Wrist_FE", 5, {0,1,0,0.02075,0,0,1,0,1,0,0,0.184,0,0,0,1}, 1.547475, {0.025,0,0}, {0.010737,0.000198,1.5e-05,0.000198,0.003227,-0.000829,1.5e-05,-0.000829,0.009277}},
};
static const FrameD HyA_frames[] = {
{"ee", 6, {1,0,0,0.03,0,1,0,0,0,0,1,0,0,0,0,1}},
{"Shoulder_AA_COM", 1, {1,0,0,-0.0002,0,1,0,-0.00036,0,0,1,0.00309,0,0,0,1}},
{"Shoulder_FE_COM", 2, {1,0,0,-0.00383,0,1,0,-0.02338,0,0,1,0.00117,0,0,0,1}},
{"Humerus_R_COM", 3, {1,0,0,-0.00239,0,1,0,0.00618,0,0,1,-0.02554,0,0,0,1}},
{"Elbow_FE_COM", 4, {1,0,0,-0.1466,0,1,0,-0.01125,0,0,1,0.00102,0,0,0,1}},
{"Wrist_R_COM", 5, {1,0,0,0.0004,0,1,0,-0.00261,0,0,1,-0.02317,0,0,0,1}},
{"Wrist_FE_COM", 6, {1,0,0,-0.07876,0,1,0,-0.01063,0,0,1,-0.00084,0,0,0,1}},
{"Shoulder_AA_CTR", 1, {1,0,0,0,0,1,0,0,0,0,1,0.089,0,0,0,1}},
{"Shoulder_FE_CTR", 2, {1,0,0,0.056,0,1,0,0,0,0,1,0,0,0,0,1}},
{"Humerus_R_CTR", 3, {1,0,0,0,0,1,0,0,0,0,1,0.152,0,0,0,1}},
{"Elbow_FE_CTR", 4, {1,0,0,0.056,0,1,0,0,0,0,1,0,0,0,0,1}},
{"Wrist_R_CTR", 5, {1,0,0,0,0,1,0,0,0,0,1,0.092,0,0,0,1}},
{"SAA", 0, {1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1}},
{"SFE", 1, {1,0,0,0,0,0,-1,0,0,1,0,0.178,0,0,0,1}},
{"HR", 2, {0,0,1,0.112,0,1,0,0,-1,0,0,0,0,0,0,1}},
{"EFE", 3, {0,0,-1,0,0,1,0,0,1,0,0,0.304,0,0,0,1}},
{"WR", 4, {0,0,1,0.112,0,1,0,0,-1,0,0,0,0,0,0,1}},
{"WFE", 5, {0,1,0,0.02075,0,0,1,0,1,0,0,0.184,0,0,0,1}},
};
}
#define HyA_TRANSFORMS(X) \
  X(fr_HyABase_X_fr_Shoulder_AA, "HyABase", "Shoulder_AA") \
  X(fr_HyABase_X_fr_Shoulder_FE, "HyABase", "Shoulder_FE") \
  X(fr_HyABase_X_fr_Humerus_R, "HyABase", "Humerus_R") \
  X(fr_HyABase_X_fr_Elbow_FE, "HyABase", "Elbow_FE") \
  X(fr_HyABase_X_fr_Wrist_R, "HyABase", "Wrist_R") \
  X(fr_HyABase_X_fr_Wrist_FE, "HyABase", "Wrist_FE") \
  X(fr_HyABase_X_fr_ee, "HyABase", "ee") \
  X(fr_HyABase_X_fr_Shoulder_AA_COM, "HyABase", "Shoulder_AA_COM") \
  X(fr_HyABase_X_fr_Shoulder_FE_COM, "HyABase", "Shoulder_FE_COM") \
  X(fr_HyABase_X_fr_Humerus_R_COM, "HyABase", "Humerus_R_COM") \
  X(fr_HyABase_X_fr_Elbow_FE_COM, "HyABase", "Elbow_FE_COM") \
  X(fr_HyABase_X_fr_Wrist_R_COM, "HyABase", "Wrist_R_COM") \
  X(fr_HyABase_X_fr_Wrist_FE_COM, "HyABase", "Wrist_FE_COM") \
  X(fr_HyABase_X_fr_Shoulder_AA_CTR, "HyABase", "Shoulder_AA_CTR") \
  X(fr_HyABase_X_fr_Shoulder_FE_CTR, "HyABase", "Shoulder_FE_CTR") \
  X(fr_HyABase_X_fr_Humerus_R_CTR, "HyABase", "Humerus_R_CTR") \
  X(fr_HyABase_X_fr_Elbow_FE_CTR, "HyABase", "Elbow_FE_CTR") \
  X(fr_HyABase_X_fr_Wrist_R_CTR, "HyABase", "Wrist_R_CTR") \
  X(fr_Shoulder_FE_X_fr_Wrist_FE, "Shoulder_FE", "Wrist_FE") \
  X(fr_Humerus_R_X_fr_Wrist_FE, "Humerus_R", "Wrist_FE") \
  X(fr_Elbow_FE_X_fr_Wrist_FE, "Elbow_FE", "Wrist_FE") \
  X(fr_Wrist_R_X_fr_Wrist_FE, "Wrist_R", "Wrist_FE") \
  X(fr_Wrist_FE_X_fr_Shoulder_FE, "Wrist_FE", "Shoulder_FE") \
  X(fr_Shoulder_FE_X_fr_ee, "Shoulder_FE", "ee") \
  X(fr_Humerus_R_X_fr_ee, "Humerus_R", "ee") \
  X(fr_Elbow_FE_X_fr_ee, "Elbow_FE", "ee") \
  X(fr_Wrist_R_X_fr_ee, "Wrist_R", "ee") \
  X(fr_Wrist_FE_X_fr_ee, "Wrist_FE", "ee") \
  X(fr_Shoulder_AA_X_fr_HyABase, "Shoulder_AA", "HyABase") \
  X(fr_Shoulder_FE_X_fr_HyABase, "Shoulder_FE", "HyABase") \
  X(fr_Humerus_R_X_fr_HyABase, "Humerus_R", "HyABase") \
  X(fr_Elbow_FE_X_fr_HyABase, "Elbow_FE", "HyABase") \
  X(fr_Wrist_R_X_fr_HyABase, "Wrist_R", "HyABase") \
  X(fr_Wrist_FE_X_fr_HyABase, "Wrist_FE", "HyABase") \
  X(fr_ee_X_fr_HyABase, "ee", "HyABase") \
  X(fr_HyABase_X_fr_SAA, "HyABase", "SAA") \
  X(fr_HyABase_X_fr_SFE, "HyABase", "SFE") \
  X(fr_HyABase_X_fr_HR, "HyABase", "HR") \
  X(fr_HyABase_X_fr_EFE, "HyABase", "EFE") \
  X(fr_HyABase_X_fr_WR, "HyABase", "WR") \
  X(fr_HyABase_X_fr_WFE, "HyABase", "WFE") \
  X(fr_Shoulder_FE_X_fr_Shoulder_AA, "Shoulder_FE", "Shoulder_AA") \
  X(fr_Shoulder_AA_X_fr_Shoulder_FE, "Shoulder_AA", "Shoulder_FE") \
  X(fr_Humerus_R_X_fr_Shoulder_FE, "Humerus_R", "Shoulder_FE") \
  X(fr_Shoulder_FE_X_fr_Humerus_R, "Shoulder_FE", "Humerus_R") \
  X(fr_Elbow_FE_X_fr_Humerus_R, "Elbow_FE", "Humerus_R") \
  X(fr_Humerus_R_X_fr_Elbow_FE, "Humerus_R", "Elbow_FE") \
  X(fr_Wrist_R_X_fr_Elbow_FE, "Wrist_R", "Elbow_FE") \
  X(fr_Elbow_FE_X_fr_Wrist_R, "Elbow_FE", "Wrist_R") \
  X(fr_Wrist_FE_X_fr_Wrist_R, "Wrist_FE", "Wrist_R")
#define HyA_JACOBIANS(X) \
  X(fr_HyABase_J_fr_ee, "ee") \
  X(fr_HyABase_J_fr_Wrist_FE_COM, "Wrist_FE_COM") \
  X(fr_HyABase_J_fr_Wrist_FE, "Wrist_FE") \
  X(fr_HyABase_J_fr_Wrist_R_COM, "Wrist_R_COM") \
  X(fr_HyABase_J_fr_Wrist_R, "Wrist_R") \
  X(fr_HyABase_J_fr_Wrist_R_CTR, "Wrist_R_CTR") \
  X(fr_HyABase_J_fr_Elbow_FE_COM, "Elbow_FE_COM") \
  X(fr_HyABase_J_fr_Elbow_FE, "Elbow_FE") \
  X(fr_HyABase_J_fr_Elbow_FE_CTR, "Elbow_FE_CTR") \
  X(fr_HyABase_J_fr_Humerus_R_COM, "Humerus_R_COM") \
  X(fr_HyABase_J_fr_Humerus_R, "Humerus_R") \
  X(fr_HyABase_J_fr_Humerus_R_CTR, "Humerus_R_CTR") \
  X(fr_HyABase_J_fr_Shoulder_AA_CTR, "Shoulder_AA_CTR") \
  X(fr_HyABase_J_fr_Shoulder_FE_CTR, "Shoulder_FE_CTR")
#define HyA_LINKS(X) \
  X(Shoulder_AA, SHOULDER_AA, 1) \
  X(Shoulder_FE, SHOULDER_FE, 2) \
  X(Humerus_R, HUMERUS_R, 3) \
  X(Elbow_FE, ELBOW_FE, 4) \
  X(Wrist_R, WRIST_R, 5) \
  X(Wrist_FE, WRIST_FE, 6)
namespace rbdref {
static const LinkD InvertedPendulum_links[] = {
{"InvertedPendulumBase", -1, {1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1}, 0, {0,0,0}, {0,0,0,0,0,0,0,0,0}},
{"Link1", 0, {0,0,1,0,0,-1,0,0,1,0,0,0,0,0,0,1}, 1.811, {0.293,0,0}, {0.00047,0,0,0,0.15594256,0,0,0,0.16452757}},
};
static const FrameD InvertedPendulum_frames[] = {
{"ee", 1, {1,0,0,0.435,0,1,0,0,0,0,1,0,0,0,0,1}},
{"Joint1", 0, {0,0,1,0,0,-1,0,0,1,0,0,0,0,0,0,1}},
};
}
#define InvertedPendulum_TRANSFORMS(X) \
  X(fr_InvertedPendulumBase_X_fr_Link1, "InvertedPendulumBase", "Link1") \
  X(fr_InvertedPendulumBase_X_fr_ee, "InvertedPendulumBase", "ee") \
  X(fr_Link1_X_fr_InvertedPendulumBase, "Link1", "InvertedPendulumBase") \
  X(fr_ee_X_fr_InvertedPendulumBase, "ee", "InvertedPendulumBase") \
  X(fr_InvertedPendulumBase_X_fr_Joint1, "InvertedPendulumBase", "Joint1")
#define InvertedPendulum_JACOBIANS(X) \
  X(fr_InvertedPendulumBase_J_fr_Link1, "Link1") \
  X(fr_InvertedPendulumBase_J_fr_ee, "ee")
#define InvertedPendulum_LINKS(X) \
  X(Link1, LINK1, 1)
namespace rbdref {
static const LinkD DoubleInvertedPendulum_links[] = {
{"DoubleInvertedPendulumBase", -1, {1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1}, 0, {0,0,0}, {0,0,0,0,0,0,0,0,0}},
{"Link1", 0, {0,0,1,0,0,-1,0,0,1,0,0,0,0,0,0,1}, 1, {0.5,0,0}, {0.0005,0,0,0,0.251,2.1855406e-11,0,2.1855406e-11,0.2505}},
{"Link2", 1, {1,0,0,1,0,1,0,0,0,0,1,0,0,0,0,1}, 1, {0.5,0,0}, {0.0005,0,0,0,0.2505,0,0,0,0.251}},
};
static const FrameD DoubleInvertedPendulum_frames[] = {
{"ee", 2, {1,0,0,1,0,1,0,0,0,0,1,0,0,0,0,1}},
{"Joint1", 0, {0,0,1,0,0,-1,0,0,1,0,0,0,0,0,0,1}},
{"Joint2", 1, {1,0,0,1,0,1,0,0,0,0,1,0,0,0,0,1}},
};
}
#define DoubleInvertedPendulum_TRANSFORMS(X) \
  X(fr_DoubleInvertedPendulumBase_X_fr_Link1, "DoubleInvertedPendulumBase", "Link1") \
  X(fr_DoubleInvertedPendulumBase_X_fr_Link2, "DoubleInvertedPendulumBase", "Link2") \
  X(fr_DoubleInvertedPendulumBase_X_fr_ee, "DoubleInvertedPendulumBase", "ee") \
  X(fr_Link2_X_fr_DoubleInvertedPendulumBase, "Link2", "DoubleInvertedPendulumBase") \
  X(fr_Link1_X_fr_DoubleInvertedPendulumBase, "Link1", "DoubleInvertedPendulumBase") \
  X(fr_ee_X_fr_DoubleInvertedPendulumBase, "ee", "DoubleInvertedPendulumBase") \
  X(fr_DoubleInvertedPendulumBase_X_fr_Joint1, "DoubleInvertedPendulumBase", "Joint1") \
  X(fr_DoubleInvertedPendulumBase_X_fr_Joint2, "DoubleInvertedPendulumBase", "Joint2") \
  X(fr_Link2_X_fr_Link1, "Link2", "Link1") \
  X(fr_Link1_X_fr_Link2, "Link1", "Link2")
#define DoubleInvertedPendulum_JACOBIANS(X) \
  X(fr_DoubleInvertedPendulumBase_J_fr_Link2, "Link2") \
  X(fr_DoubleInvertedPendulumBase_J_fr_Link1, "Link1") \
  X(fr_DoubleInvertedPendulumBase_J_fr_ee, "ee")
#define DoubleInvertedPendulum_LINKS(X) \
  X(Link1, LINK1, 1) \
  X(Link2, LINK2, 2)
namespace rbdref {
static const LinkD QuadrotorWithLoad_links[] = {
{"body", -1, {1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1}, 0.5, {0,0,0}, {0.03,0,0,0,0.03,0,0,0,0.05}},
{"link1", 0, {1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1}, 0.025, {0,0,-0.05}, {2.075e-05,0,0,0,2.075e-05,0,0,0,1e-06}},
{"link2", 1, {0,1,0,0,0,0,-1,0,-1,0,0,-0.1,0,0,0,1}, 0.1, {0.35,0,0}, {2.5e-06,0,0,0,0.004084,0,0,0,0.004084}},
};
static const FrameD QuadrotorWithLoad_frames[] = {
{"ee", 2, {1,0,0,0.7,0,1,0,0,0,0,1,0,0,0,0,1}},
{"com0", 0, {1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1}},
{"com1", 1, {1,0,0,0,0,1,0,0,0,0,1,-0.05,0,0,0,1}},
{"jA", 0, {1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1}},
{"jB", 1, {0,1,0,0,0,0,-1,0,-1,0,0,-0.1,0,0,0,1}},
};
}
#define QuadrotorWithLoad_TRANSFORMS(X) \
  X(fr_body_X_fr_link1, "body", "link1") \
  X(fr_body_X_fr_link2, "body", "link2") \
  X(fr_body_X_fr_ee, "body", "ee") \
  X(fr_body_X_fr_com0, "body", "com0") \
  X(fr_body_X_fr_com1, "body", "com1") \
  X(fr_link1_X_fr_body, "link1", "body") \
  X(fr_link2_X_fr_body, "link2", "body") \
  X(fr_ee_X_fr_body, "ee", "body") \
  X(fr_com0_X_fr_body, "com0", "body") \
  X(fr_com1_X_fr_body, "com1", "body") \
  X(fr_body_X_fr_jA, "body", "jA") \
  X(fr_body_X_fr_jB, "body", "jB") \
  X(fr_link2_X_fr_link1, "link2", "link1") \
  X(fr_link1_X_fr_link2, "link1", "link2")
#define QuadrotorWithLoad_JACOBIANS(X) \
  X(fr_body_J_fr_ee, "ee")
#define QuadrotorWithLoad_LINKS(X) \
  X(body, BODY, 0) \
  X(link1, LINK1, 1) \
  X(link2, LINK2, 2)
namespace rbdref {
static const LinkD HyQ_links[] = {
{"trunk", -1, {1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1}, 53.433, {-0.0223,-0.0001,0.0387}, {1.209488,-0.00571,0.190812,-0.00571,5.5837,0.012668,0.190812,0.012668,6.056973}},
{"LF_hipassembly", 0, {0,0,-1,0.3735,0,-1,0,0.207,-1,0,0,0,0,0,0,1}, 3.44, {0.04263,0,0.16931}, {0.134705,-3.6e-05,-0.022734,-3.6e-05,0.144171,-5.1e-05,-0.022734,-5.1e-05,0.011033}},
{"LF_upperleg", 1, {1,0,0,0.08,0,0,-1,0,0,1,0,0,0,0,0,1}, 3.146, {0.15074,-0.02625,0}, {0.005495,0.007418,0.000102,0.007418,0.087136,2.1e-05,0.000102,2.1e-05,0.089871}},
{"LF_lowerleg", 2, {1,0,0,0.35,0,1,0,0,0,0,1,0,0,0,0,1}, 0.881, {0.1254,0.0005,-0.0001}, {0.000468,0,0,0,0.026409,0,0,0,0.026181}},
{"RF_hipassembly", 0, {0,0,1,0.3735,0,1,0,-0.207,-1,0,0,0,0,0,0,1}, 3.44, {0.04263,0,-0.16931}, {0.134705,3.6e-05,0.022734,3.6e-05,0.144171,-5.1e-05,0.022734,-5.1e-05,0.011033}},
{"RF_upperleg", 4, {1,0,0,0.08,0,0,1,0,0,-1,0,0,0,0,0,1}, 3.146, {0.15074,-0.02625,0}, {0.005495,0.007418,0.000102,0.007418,0.087136,2.1e-05,0.000102,2.1e-05,0.089871}},
{"RF_lowerleg", 5, {1,0,0,0.35,0,1,0,0,0,0,1,0,0,0,0,1}, 0.881, {0.1254,0.0005,-0.0001}, {0.000468,0,0,0,0.026409,0,0,0,0.026181}},
{"LH_hipassembly", 0, {0,0,-1,-0.3735,0,-1,0,0.207,-1,0,0,0,0,0,0,1}, 3.44, {0.04263,0,-0.16931}, {0.134705,3.6e-05,0.022734,3.6e-05,0.144171,-5.1e-05,0.022734,-5.1e-05,0.011033}},
{"LH_upperleg", 7, {1,0,0,0.08,0,0,-1,0,0,1,0,0,0,0,0,1}, 3.146, {0.15074,0.02625,0}, {0.005495,-0.007418,-0.000102,-0.007418,0.087136,2.1e-05,-0.000102,2.1e-05,0.089871}},
{"LH_lowerleg", 8, {1,0,0,0.35,0,1,0,0,0,0,1,0,0,0,0,1}, 0.881, {0.125,-0.001,0}, {0.000468,0,0,0,0.026409,0,0,0,0.026181}},
{"RH_hipassembly", 0, {0,0,1,-0.3735,0,1,0,-0.207,-1,0,0,0,0,0,0,1}, 3.44, {0.04263,0,0.16931}, {0.134705,-3.6e-05,-0.022734,-3.6e-05,0.144171,-5.1e-05,-0.022734,-5.1e-05,0.011033}},
{"RH_upperleg", 10, {1,0,0,0.08,0,0,1,0,0,-1,0,0,0,0,0,1}, 3.146, {0.15074,0.02625,0}, {0.005495,-0.007418,-0.000102,-0.007418,0.087136,2.1e-05,-0.000102,2.1e-05,0.089871}},
{"RH_lowerleg", 11, {1,0,0,0.35,0,1,0,0,0,0,1,0,0,0,0,1}, 0.881, {0.1254,-0.0005,0.0001}, {0.000468,0,0,0,0.026409,0,0,0,0.026181}},
};
static const FrameD HyQ_frames[] = {
{"LF_hipassemblyCOM", 1, {1,0,0,0.043,0,1,0,0,0,0,1,0.169,0,0,0,1}},
{"RF_hipassemblyCOM", 4, {1,0,0,0.043,0,1,0,0,0,0,1,-0.169,0,0,0,1}},
{"LH_hipassemblyCOM", 7, {1,0,0,0.043,0,1,0,0,0,0,1,-0.169,0,0,0,1}},
{"RH_hipassemblyCOM", 10, {1,0,0,0.043,0,1,0,0,0,0,1,0.169,0,0,0,1}},
{"LF_upperlegCOM", 2, {1,0,0,0.151,0,1,0,-0.026,0,0,1,0,0,0,0,1}},
{"RF_upperlegCOM", 5, {1,0,0,0.151,0,1,0,-0.026,0,0,1,0,0,0,0,1}},
{"LH_upperlegCOM", 8, {1,0,0,0.151,0,1,0,0.026,0,0,1,0,0,0,0,1}},
{"RH_upperlegCOM", 11, {1,0,0,0.151,0,1,0,0.026,0,0,1,0,0,0,0,1}},
{"LF_lowerlegCOM", 3, {1,0,0,0.125,0,1,0,0,0,0,1,0,0,0,0,1}},
{"RF_lowerlegCOM", 6, {1,0,0,0.125,0,1,0,0.001,0,0,1,0,0,0,0,1}},
{"LH_lowerlegCOM", 9, {1,0,0,0.125,0,1,0,-0.001,0,0,1,0,0,0,0,1}},
{"RH_lowerlegCOM", 12, {1,0,0,0.1254,0,1,0,-0.0005,0,0,1,0,0,0,0,1}},
{"LF_foot", 3, {1,0,0,0.33,0,1,0,0,0,0,1,0,0,0,0,1}},
{"RF_foot", 6, {1,0,0,0.33,0,1,0,0,0,0,1,0,0,0,0,1}},
{"LH_foot", 9, {1,0,0,0.33,0,1,0,0,0,0,1,0,0,0,0,1}},
{"RH_foot", 12, {1,0,0,0.33,0,1,0,0,0,0,1,0,0,0,0,1}},
{"LF_HAA", 0, {0,0,-1,0.3735,0,-1,0,0.207,-1,0,0,0,0,0,0,1}},
{"RF_HAA", 0, {0,0,1,0.3735,0,1,0,-0.207,-1,0,0,0,0,0,0,1}},
{"LH_HAA", 0, {0,0,-1,-0.3735,0,-1,0,0.207,-1,0,0,0,0,0,0,1}},
{"RH_HAA", 0, {0,0,1,-0.3735,0,1,0,-0.207,-1,0,0,0,0,0,0,1}},
{"LF_HFE", 1, {1,0,0,0.08,0,0,-1,0,0,1,0,0,0,0,0,1}},
{"RF_HFE", 4, {1,0,0,0.08,0,0,1,0,0,-1,0,0,0,0,0,1}},
{"LH_HFE", 7, {1,0,0,0.08,0,0,-1,0,0,1,0,0,0,0,0,1}},
{"RH_HFE", 10, {1,0,0,0.08,0,0,1,0,0,-1,0,0,0,0,0,1}},
{"LF_KFE", 2, {1,0,0,0.35,0,1,0,0,0,0,1,0,0,0,0,1}},
{"RF_KFE", 5, {1,0,0,0.35,0,1,0,0,0,0,1,0,0,0,0,1}},
{"LH_KFE", 8, {1,0,0,0.35,0,1,0,0,0,0,1,0,0,0,0,1}},
{"RH_KFE", 11, {1,0,0,0.35,0,1,0,0,0,0,1,0,0,0,0,1}},
};
}
#define HyQ_TRANSFORMS(X) \
  X(fr_trunk_X_fr_LF_hipassembly, "trunk", "LF_hipassembly") \
  X(fr_trunk_X_fr_RF_hipassembly, "trunk", "RF_hipassembly") \
  X(fr_trunk_X_fr_LH_hipassembly, "trunk", "LH_hipassembly") \
  X(fr_trunk_X_fr_RH_hipassembly, "trunk", "RH_hipassembly") \
  X(fr_trunk_X_fr_LF_upperleg, "trunk", "LF_upperleg") \
  X(fr_trunk_X_fr_RF_upperleg, "trunk", "RF_upperleg") \
  X(fr_trunk_X_fr_LH_upperleg, "trunk", "LH_upperleg") \
  X(fr_trunk_X_fr_RH_upperleg, "trunk", "RH_upperleg") \
  X(fr_trunk_X_fr_LF_lowerleg, "trunk", "LF_lowerleg") \
  X(fr_trunk_X_fr_RF_lowerleg, "trunk", "RF_lowerleg") \
  X(fr_trunk_X_fr_LH_lowerleg, "trunk", "LH_lowerleg") \
  X(fr_trunk_X_fr_RH_lowerleg, "trunk", "RH_lowerleg") \
  X(fr_LF_hipassembly_X_fr_trunk, "LF_hipassembly", "trunk") \
  X(fr_RF_hipassembly_X_fr_trunk, "RF_hipassembly", "trunk") \
  X(fr_LH_hipassembly_X_fr_trunk, "LH_hipassembly", "trunk") \
  X(fr_RH_hipassembly_X_fr_trunk, "RH_hipassembly", "trunk") \
  X(fr_LF_upperleg_X_fr_trunk, "LF_upperleg", "trunk") \
  X(fr_RF_upperleg_X_fr_trunk, "RF_upperleg", "trunk") \
  X(fr_LH_upperleg_X_fr_trunk, "LH_upperleg", "trunk") \
  X(fr_RH_upperleg_X_fr_trunk, "RH_upperleg", "trunk") \
  X(fr_LF_lowerleg_X_fr_trunk, "LF_lowerleg", "trunk") \
  X(fr_RF_lowerleg_X_fr_trunk, "RF_lowerleg", "trunk") \
  X(fr_LH_lowerleg_X_fr_trunk, "LH_lowerleg", "trunk") \
  X(fr_RH_lowerleg_X_fr_trunk, "RH_lowerleg", "trunk") \
  X(fr_trunk_X_LF_hipassemblyCOM, "trunk", "LF_hipassemblyCOM") \
  X(fr_trunk_X_RF_hipassemblyCOM, "trunk", "RF_hipassemblyCOM") \
  X(fr_trunk_X_LH_hipassemblyCOM, "trunk", "LH_hipassemblyCOM") \
  X(fr_trunk_X_RH_hipassemblyCOM, "trunk", "RH_hipassemblyCOM") \
  X(fr_trunk_X_LF_upperlegCOM, "trunk", "LF_upperlegCOM") \
  X(fr_trunk_X_RF_upperlegCOM, "trunk", "RF_upperlegCOM") \
  X(fr_trunk_X_LH_upperlegCOM, "trunk", "LH_upperlegCOM") \
  X(fr_trunk_X_RH_upperlegCOM, "trunk", "RH_upperlegCOM") \
  X(fr_trunk_X_LF_lowerlegCOM, "trunk", "LF_lowerlegCOM") \
  X(fr_trunk_X_RF_lowerlegCOM, "trunk", "RF_lowerlegCOM") \
  X(fr_trunk_X_LH_lowerlegCOM, "trunk", "LH_lowerlegCOM") \
  X(fr_trunk_X_RH_lowerlegCOM, "trunk", "RH_lowerlegCOM") \
  X(fr_LF_foot_X_fr_LF_lowerleg, "LF_foot", "LF_lowerleg") \
  X(fr_RF_foot_X_fr_RF_lowerleg, "RF_foot", "RF_lowerleg") \
  X(fr_LH_foot_X_fr_LH_lowerleg, "LH_foot", "LH_lowerleg") \
  X(fr_RH_foot_X_fr_RH_lowerleg, "RH_foot", "RH_lowerleg") \
  X(fr_trunk_X_fr_LF_foot, "trunk", "LF_foot") \
  X(fr_trunk_X_fr_RF_foot, "trunk", "RF_foot") \
  X(fr_trunk_X_fr_LH_foot, "trunk", "LH_foot") \
  X(fr_trunk_X_fr_RH_foot, "trunk", "RH_foot") \
  X(fr_LF_foot_X_fr_trunk, "LF_foot", "trunk") \
  X(fr_RF_foot_X_fr_trunk, "RF_foot", "trunk") \
  X(fr_LH_foot_X_fr_trunk, "LH_foot", "trunk") \
  X(fr_RH_foot_X_fr_trunk, "RH_foot", "trunk") \
  X(fr_trunk_X_fr_LF_HAA, "trunk", "LF_HAA") \
  X(fr_trunk_X_fr_RF_HAA, "trunk", "RF_HAA") \
  X(fr_trunk_X_fr_LH_HAA, "trunk", "LH_HAA") \
  X(fr_trunk_X_fr_RH_HAA, "trunk", "RH_HAA") \
  X(fr_trunk_X_fr_LF_HFE, "trunk", "LF_HFE") \
  X(fr_trunk_X_fr_RF_HFE, "trunk", "RF_HFE") \
  X(fr_trunk_X_fr_LH_HFE, "trunk", "LH_HFE") \
  X(fr_trunk_X_fr_RH_HFE, "trunk", "RH_HFE") \
  X(fr_trunk_X_fr_LF_KFE, "trunk", "LF_KFE") \
  X(fr_trunk_X_fr_RF_KFE, "trunk", "RF_KFE") \
  X(fr_trunk_X_fr_LH_KFE, "trunk", "LH_KFE") \
  X(fr_trunk_X_fr_RH_KFE, "trunk", "RH_KFE") \
  X(fr_LF_upperleg_X_fr_LF_hipassembly, "LF_upperleg", "LF_hipassembly") \
  X(fr_LF_hipassembly_X_fr_LF_upperleg, "LF_hipassembly", "LF_upperleg") \
  X(fr_LF_lowerleg_X_fr_LF_upperleg, "LF_lowerleg", "LF_upperleg") \
  X(fr_LF_upperleg_X_fr_LF_lowerleg, "LF_upperleg", "LF_lowerleg") \
  X(fr_RF_upperleg_X_fr_RF_hipassembly, "RF_upperleg", "RF_hipassembly") \
  X(fr_RF_hipassembly_X_fr_RF_upperleg, "RF_hipassembly", "RF_upperleg") \
  X(fr_RF_lowerleg_X_fr_RF_upperleg, "RF_lowerleg", "RF_upperleg") \
  X(fr_RF_upperleg_X_fr_RF_lowerleg, "RF_upperleg", "RF_lowerleg") \
  X(fr_LH_upperleg_X_fr_LH_hipassembly, "LH_upperleg", "LH_hipassembly") \
  X(fr_LH_hipassembly_X_fr_LH_upperleg, "LH_hipassembly", "LH_upperleg") \
  X(fr_LH_lowerleg_X_fr_LH_upperleg, "LH_lowerleg", "LH_upperleg") \
  X(fr_LH_upperleg_X_fr_LH_lowerleg, "LH_upperleg", "LH_lowerleg") \
  X(fr_RH_upperleg_X_fr_RH_hipassembly, "RH_upperleg", "RH_hipassembly") \
  X(fr_RH_hipassembly_X_fr_RH_upperleg, "RH_hipassembly", "RH_upperleg") \
  X(fr_RH_lowerleg_X_fr_RH_upperleg, "RH_lowerleg", "RH_upperleg") \
  X(fr_RH_upperleg_X_fr_RH_lowerleg, "RH_upperleg", "RH_lowerleg")
#define HyQ_JACOBIANS(X) \
  X(fr_trunk_J_LF_hipassemblyCOM, "LF_hipassemblyCOM") \
  X(fr_trunk_J_RF_hipassemblyCOM, "RF_hipassemblyCOM") \
  X(fr_trunk_J_LH_hipassemblyCOM, "LH_hipassemblyCOM") \
  X(fr_trunk_J_RH_hipassemblyCOM, "RH_hipassemblyCOM") \
  X(fr_trunk_J_LF_upperlegCOM, "LF_upperlegCOM") \
  X(fr_trunk_J_RF_upperlegCOM, "RF_upperlegCOM") \
  X(fr_trunk_J_LH_upperlegCOM, "LH_upperlegCOM") \
  X(fr_trunk_J_RH_upperlegCOM, "RH_upperlegCOM") \
  X(fr_trunk_J_LF_lowerlegCOM, "LF_lowerlegCOM") \
  X(fr_trunk_J_RF_lowerlegCOM, "RF_lowerlegCOM") \
  X(fr_trunk_J_LH_lowerlegCOM, "LH_lowerlegCOM") \
  X(fr_trunk_J_RH_lowerlegCOM, "RH_lowerlegCOM") \
  X(fr_trunk_J_fr_LF_foot, "LF_foot") \
  X(fr_trunk_J_fr_RF_foot, "RF_foot") \
  X(fr_trunk_J_fr_LH_foot, "LH_foot") \
  X(fr_trunk_J_fr_RH_foot, "RH_foot")
#define HyQ_LINKS(X) \
  X(trunk, TRUNK, 0) \
  X(LF_hipassembly, LF_HIPASSEMBLY, 1) \
  X(LF_upperleg, LF_UPPERLEG, 2) \
  X(LF_lowerleg, LF_LOWERLEG, 3) \
  X(RF_hipassembly, RF_HIPASSEMBLY, 4) \
  X(RF_upperleg, RF_UPPERLEG, 5) \
  X(RF_lowerleg, RF_LOWERLEG, 6) \
  X(LH_hipassembly, LH_HIPASSEMBLY, 7) \
  X(LH_upperleg, LH_UPPERLEG, 8) \
  X(LH_lowerleg, LH_LOWERLEG, 9) \
  X(RH_hipassembly, RH_HIPASSEMBLY, 10) \
  X(RH_upperleg, RH_UPPERLEG, 11) \
  X(RH_lowerleg, RH_LOWERLEG, 12)

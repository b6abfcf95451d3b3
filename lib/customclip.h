/* user-supplied clip space corners (GLM_CUSTOM_CLIPSPACE), all different */
#define GLM_CUSTOM_CLIPSPACE
#define GLM_CSCOORD_LBN {-2.0f, -3.0f, 0.25f, 1.0f}
#define GLM_CSCOORD_LTN {-1.5f,  2.5f, 0.0f, 1.0f}
#define GLM_CSCOORD_RTN { 1.25f,  3.5f, 0.125f, 1.0f}
#define GLM_CSCOORD_RBN { 2.25f, -0.5f, -0.25f, 1.0f}
#define GLM_CSCOORD_LBF {-1.0f, -1.75f, 0.75f, 1.0f}
#define GLM_CSCOORD_LTF {-3.0f,  1.0f, 0.875f, 1.0f}
#define GLM_CSCOORD_RTF { 0.5f,  0.75f, 1.5f, 1.0f}
#define GLM_CSCOORD_RBF { 2.75f, -2.0f, 2.0f, 1.0f}

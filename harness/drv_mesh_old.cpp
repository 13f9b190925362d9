// C01-C03 on the second mesh implementation
#define VP_OLD_MESH
#include "drv_mesh.cpp"

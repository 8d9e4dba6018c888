#define main vdf_client_main
#include "vdf_client.cpp"

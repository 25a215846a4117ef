// Element stores with the constants they use.
#include "index/ElementStore.cpp"
#include "mapcss/StyleConsts.cpp"

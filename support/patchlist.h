/* This file was automatically generated by ircd-patch */
#define PATCHLIST ""

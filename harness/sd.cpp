/* sd : hx with the extra script command "sd ..." that runs single spectral-difference operators (sd_kind.h) */
#define HX_EXTRA
#include "hx.cpp"

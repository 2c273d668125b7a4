#include "verif_absl.h"

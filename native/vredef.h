/* forced include for native builds of the repository sources: exit() and printf() are redirected to the replay runtime */
#ifndef VREDEF_H
#define VREDEF_H
#include <stdio.h>
#include <stdlib.h>
#endif

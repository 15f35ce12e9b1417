// stand-in for the header generated by the build
#pragma once
#define VERSION_FULL_STRING "0.0.0"

/* stand-in for the header the build generates: only paths, no semantics */
#ifndef LEVI_PATH_H
#define LEVI_PATH_H
#define LEVI_SOURCE_DIR ""
#define LEVI_AUTOGENERATED_DIR ""
#endif

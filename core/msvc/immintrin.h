// see intrin.h

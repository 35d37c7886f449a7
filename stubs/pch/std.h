// Precompiled when a check starts: everything that generated tests may include, so that tests can be wrapped in namespaces.
#ifndef VERIF_PCH_STD_H
#define VERIF_PCH_STD_H
#include <bits/stdc++.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <strings.h>
#include <sys/time.h>
#include <sys/types.h>
#endif

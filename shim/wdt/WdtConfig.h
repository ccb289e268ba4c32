/**
 * Copyright (c) 2014-present, Facebook, Inc.
 * All rights reserved.
 *
 * This source code is licensed under the BSD-style license found in the
 * LICENSE file in the root directory of this source tree.
 */
// Source is WdtConfig.h auto generated by CMake from .in file
#pragma once

#include <fcntl.h>

#define WDT_VERSION_MAJOR 1
#define WDT_VERSION_MINOR 32
#define WDT_VERSION_BUILD 1910230
#define WDT_VERSION_STR "1.32.1910230"
// Tie minor and proto version for now
#define WDT_PROTOCOL_VERSION WDT_VERSION_MINOR

#define HAS_POSIX_FALLOCATE 1
#define HAS_SYNC_FILE_RANGE 1
#define HAS_POSIX_MEMALIGN 1
#define HAS_POSIX_FADVISE 1

#if (defined(HAS_POSIX_MEMALIGN) && defined(O_DIRECT)) || defined(F_NOCACHE)
#define WDT_SUPPORTS_ODIRECT 1
#endif
#define WDT_HAS_SOCKIOS_H

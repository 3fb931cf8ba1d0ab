﻿#define LIBRTTI_VERSION_STRING "1.0.0"
#define LIBRTTI_VERSION_MAJOR 1
#define LIBRTTI_VERSION_MINOR 0
#define LIBRTTI_VERSION_PATCH 0

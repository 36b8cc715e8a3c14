#pragma once
#include "third_party/abseil/absl/flags/flag.h"
#include "third_party/abseil/absl/flags/declare.h"

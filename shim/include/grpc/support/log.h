#pragma once
#include "fake_grpc.h"

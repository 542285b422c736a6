#pragma once
#include <vnx/module.h>

#pragma once
#include <geometry_msgs/all.h>

#pragma once
#define SCIPP_UNITS_EXPORT
#define SCIPP_UNITS_NO_EXPORT

#pragma once
#define SCIPP_CORE_EXPORT
#define SCIPP_CORE_NO_EXPORT

#pragma once
#define SCIPP_DATASET_EXPORT
#define SCIPP_DATASET_NO_EXPORT

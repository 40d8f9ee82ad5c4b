CONSTANTS MaxLen = 5
Kind = "dataset"
SPECIFICATION MSpec
INVARIANT SettingsMean DatasetMeans
CHECK_DEADLOCK FALSE

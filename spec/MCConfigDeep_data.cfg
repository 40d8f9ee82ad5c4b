CONSTANTS MaxLen = 9
Kind = "dataset"
SPECIFICATION MSpec
INVARIANT SettingsMean DatasetMeans
CHECK_DEADLOCK FALSE

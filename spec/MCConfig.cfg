CONSTANTS MaxLen = 3
Kind = "settings"
SPECIFICATION MSpec
INVARIANT SettingsMean DatasetMeans
CHECK_DEADLOCK FALSE

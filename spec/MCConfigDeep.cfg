CONSTANTS MaxLen = 4
Kind = "settings"
SPECIFICATION MSpec
INVARIANT SettingsMean DatasetMeans
CHECK_DEADLOCK FALSE

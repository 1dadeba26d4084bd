# batch e: JET markers and mutes, DLS key groups
J = "jet.c"
M = [
("je_marknorep", "C31", J, "if (endOfLoop || (state == EAS_STATE_STOPPING)", "if ((endOfLoop && pSeg->repeatCount) || (state == EAS_STATE_STOPPING)"),
("je_marklast", "C31", J, "if (endOfLoop || (state == EAS_STATE_STOPPING)", "if ((endOfLoop && !pSeg->repeatCount) || (state == EAS_STATE_STOPPING)"),
("je_range", "C31", J, "(controller <= easHandle->jetHandle->config.appEventRangeHigh)", "(controller < easHandle->jetHandle->config.appEventRangeHigh)"),
("je_tail", "C31", J, "                case JET_STATE_STOPPING:\n                    if (state == EAS_STATE_STOPPED)", "                case JET_STATE_STOPPING:\n                    if (endOfLoop || state == EAS_STATE_STOPPED || state == EAS_STATE_PLAY)"),
("je_syncclear", "C31", J, "                                pSeg->flags &= ~JET_SEG_FLAG_MUTE_UPDATE;", "                                pSeg->flags &= ~JET_SEG_FLAG_MUTE_UPDATE; pSeg->muteFlags = 0;"),
("je_syncnow", "C31", J, "    /* save mute flags and set mute update flag */", "    if (muteFlag) EAS_IntSetStrmParam(easHandle, pSeg->streamHandle, PARSER_DATA_MUTE_FLAGS, (EAS_I32) (pSeg->muteFlags | trackMuteFlag));\n    /* save mute flags and set mute update flag */"),
("je_count", "C31", J, "                            if (pSeg->repeatCount > 0)\n                                pSeg->repeatCount--;", "                            if (pSeg->repeatCount > 0 && !(endOfLoop && pSeg->repeatCount == 3))\n                                pSeg->repeatCount--;"),
("je_user", "C31", J, "userID << JET_EVENT_SEG_SHIFT;", "userID << JET_EVENT_SEG_SHIFT; if (easHandle->jetHandle->segQueue[(segTrack & JET_EVENT_SEG_MASK) >> JET_EVENT_SEG_SHIFT].state == JET_STATE_STOPPING) return;"),
]

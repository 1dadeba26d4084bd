J = "jet.c"; P = "eas_public.c"; F = "eas_smf.c"; V = "eas_voicemgt.c"; W = "eas_wtsynth.c"; X = "eas_xmf.c"; D = "eas_mdls.c"; DS = "eas_dlssynth.c"; E = "example/sonivoxrender.c"; M_ = "eas_midi.c"; H = "../host_src/eas_hostmm.c"
M = [
("hj_muteupd_now", "C31", J, "                            if (pSeg->flags & JET_SEG_FLAG_MUTE_UPDATE)\n", "                            if ((pSeg->flags & JET_SEG_FLAG_MUTE_UPDATE) && (pSeg->repeatCount != 0))\n"),
("hj_repneg", "C31", J, "                            if (pSeg->repeatCount > 0)", "                            if (pSeg->repeatCount != 0)"),
("hj_rep8", "C31", J, "    p->repeatCount = (EAS_I16) repeatCount;", "    p->repeatCount = (EAS_I8) repeatCount;"),
("hj_transneg", "C31", J, "    if (p->transpose)\n", "    if (p->transpose > 0)\n"),
("hj_startmute", "C31", J, "if ((result == EAS_SUCCESS) && (pSeg->muteFlags != 0))", "if ((result == EAS_SUCCESS) && ((pSeg->muteFlags & 0xffff) != 0))"),
("hj_muteclip_keep", "C31", J, "                    easHandle->jetHandle->muteQueue[i] &= ~JET_CLIP_TRIGGER_FLAG;", "                    ;"),
("hj_clipid0", "C31", J, "        if (easHandle->jetHandle->muteQueue[i] == 0)\n            index = i;", "        if ((easHandle->jetHandle->muteQueue[i] == 0) && (index < 0))\n            index = i;"),
("hj_prepopen", "C31", J, "                    if (prepareNextSegment || startNextSegment)", "                    if (prepareNextSegment)"),
("hj_playseg_close", "C31", J, "        easHandle->jetHandle->playSegment = easHandle->jetHandle->queueSegment = 0;\n        easHandle->jetHandle->flags &= ~JET_FLAGS_PLAYING;\n    }", "        easHandle->jetHandle->playSegment = easHandle->jetHandle->queueSegment;\n        easHandle->jetHandle->flags &= ~JET_FLAGS_PLAYING;\n    }"),
("hj_clearmute", "C31", J, "        easHandle->jetHandle->muteQueue[index] = 0;\n    }\n", "    }\n"),
("hj_lib0", "C31", J, "    if (p->libNum >= 0)\n", "    if (p->libNum > 0)\n"),
("hj_numq", "C31", J, "    easHandle->jetHandle->segQueue[queueNum].state = JET_STATE_CLOSED;\n    easHandle->jetHandle->numQueuedSegments--;", "    if (easHandle->jetHandle->segQueue[queueNum].state != JET_STATE_OPEN)\n        easHandle->jetHandle->numQueuedSegments--;\n    easHandle->jetHandle->segQueue[queueNum].state = JET_STATE_CLOSED;"),
("hj_pausedplay", "C31", J, "            (easHandle->jetHandle->segQueue[index].state == JET_STATE_PAUSED))\n", "            (easHandle->jetHandle->segQueue[index].state == JET_STATE_PAUSED && index != 2))\n"),
("hj_flagstop", "C31", J, "    if (easHandle->jetHandle->numQueuedSegments == 0)\n        easHandle->jetHandle->flags &= ~JET_FLAGS_PLAYING;", "    if (easHandle->jetHandle->numQueuedSegments <= 1 && easHandle->jetHandle->segQueue[easHandle->jetHandle->playSegment].state == JET_STATE_CLOSED)\n        easHandle->jetHandle->flags &= ~JET_FLAGS_PLAYING;"),
("hj_evuser", "C31", J, "segQueue[(segTrack & JET_EVENT_SEG_MASK) >> JET_EVENT_SEG_SHIFT].userID", "segQueue[easHandle->jetHandle->playSegment].userID"),
("hp_loc_eq", "C13", P, "    if (requestedTime == (pStream->time >> 8))\n        return EAS_SUCCESS;", "    if ((requestedTime >> 2) == (pStream->time >> 10))\n        return EAS_SUCCESS;"),
("hp_loc_paused", "C12 C13", P, "    if (((state == EAS_STATE_PAUSING) || (state == EAS_STATE_PAUSED)) && ((pStream->streamFlags & STREAM_FLAGS_RESUME) == 0))", "    if ((state == EAS_STATE_PAUSED) && ((pStream->streamFlags & STREAM_FLAGS_RESUME) == 0))"),
("hp_loc_paused2", "C12 C13", P, "    if (((state == EAS_STATE_PAUSING) || (state == EAS_STATE_PAUSED)) && ((pStream->streamFlags & STREAM_FLAGS_RESUME) == 0))", "    if ((state == EAS_STATE_PAUSING) || (state == EAS_STATE_PAUSED))"),
("hp_rep_time", "C29 C10", P, "                        return result;\n                    pEASData->streams[streamNum].time = 0;", "                        return result;\n                    pEASData->streams[streamNum].time &= 0xff;"),
("hp_state_rep", "C12 C29", P, "    if (pStream->repeatCount && (*pState == EAS_STATE_STOPPED))", "    if ((pStream->repeatCount > 0) && (*pState == EAS_STATE_STOPPED))"),
("hp_parsetime", "C12 C13 C23", P, "            if (parseMode != eParserModePlay)\n                pStream->time = time << 8;", "            if (parseMode == eParserModeLocate)\n                pStream->time = time << 8;"),
("hp_evcount", "C10 C08 C34", P, "    static const EAS_INT MAX_EVENT_COUNT = 100000;", "    static const EAS_INT MAX_EVENT_COUNT = 32768;"),
("hf_rst_tie", "C29 C17 C13", F, "        if (pSMFData->streams[i].ticks < ticks)\n        {\n            ticks = pSMFData->streams[i].ticks;\n            pSMFData->nextStream = &pSMFData->streams[i];", "        if (pSMFData->streams[i].ticks <= ticks)\n        {\n            ticks = pSMFData->streams[i].ticks;\n            pSMFData->nextStream = &pSMFData->streams[i];"),
("hf_zero_stay", "C17", F, "        else if (pSMFData->nextStream->ticks == ticks)\n", "        else if ((pSMFData->nextStream->ticks == ticks) && (pSMFData->numStreams > 2))\n"),
("hf_eofall", "C08 C17 C15", F, "    else\n    {\n        pSMFData->state = EAS_STATE_STOPPING;\n        VMReleaseAllVoices(pEASData->pVoiceMgr, pSMFData->pSynth);\n    }", "    else\n    {\n        pSMFData->state = EAS_STATE_STOPPING;\n        if (parserMode == eParserModePlay)\n            VMReleaseAllVoices(pEASData->pVoiceMgr, pSMFData->pSynth);\n    }"),
("hf_tempolen", "C10 C17", F, "            temp = (temp << 8) | c;\n        }\n", "            temp = ((temp << 8) | c) & 0x7fffff;\n        }\n"),
("hf_timesig", "C10 C29", F, "        pSMFData->flags |= SMF_FLAGS_HAS_TIME_SIG;", "        if (pSMFStream == pSMFData->streams)\n            pSMFData->flags |= SMF_FLAGS_HAS_TIME_SIG;"),
("hf_readlen0", "C23 C07", F, "            pSMFData->metadata.buffer[readLen] = 0;", "            if (readLen) pSMFData->metadata.buffer[readLen] = 0;"),
("hf_meta_pos", "C23 C17", F, "            if ((EAS_I32) len < readLen)\n                readLen = (EAS_I32) len;\n", "            if ((EAS_I32) len < readLen)\n                readLen = (EAS_I32) len;\n            else\n                pos = (pos & ~0xffffL) | (pos & 0xffffL);\n"),
("hf_closefh", "C05", F, "        if (pSMFData->streams[i].fileHandle != NULL)\n        {\n            if ((result = EAS_HWCloseFile", "        if ((pSMFData->streams[i].fileHandle != NULL) && (pSMFData->streams[i].ticks != 0x7ffffffe))\n        {\n            if (pSMFData->state == EAS_STATE_ERROR && i > 8) continue; if ((result = EAS_HWCloseFile"),
]

D = "eas_mdls.c"; R = "eas_reverb.c"; C = "eas_chorus.c"; Y = "eas_xmf.c"; PAN = "eas_pan.c"; MA = "eas_math.c"
M = [
# --- DLS parser
("md_pad", "C33", D, "    *pPos += *pSize + (*pSize & 1) + 8;", "    *pPos += *pSize + 8;"),
("md_unity", "C33 C24", D, "    if (wtemp <= 127)\n        p->unityNote = (EAS_U8) wtemp;", "    if (wtemp < 127)\n        p->unityNote = (EAS_U8) wtemp;"),
("md_gainpos", "C33 C24", D, "        p->gain = 0;\n    }", "        p->gain = -p->gain;\n    }"),
("md_loopinherit", "C33 C24", D, "    p->loopStart = 0;\n    p->loopLength = 0;\n\n    /* if looped sample, get loop data */", "    /* if looped sample, get loop data */"),
("md_wsmpcb", "C33", D, "pDLSData->fileHandle, pos + (EAS_I32) cbSize)) != EAS_SUCCESS)", "pDLSData->fileHandle, pos + 20)) != EAS_SUCCESS)"),
("md_loops1", "C33", D, "    if (ltemp)\n    {\n\n        if (ltemp > 1)", "    if (ltemp == 1)\n    {\n\n        if (ltemp > 1)"),
("md_artcb", "C33", D, "    pos += (EAS_I32) structSize;\n\n    /* get the number of connections */", "    pos += 8;\n\n    /* get the number of connections */"),
("md_odd16", "C33 C02", D, "        dataSize &= ~(EAS_I32) 1;", "        dataSize = (dataSize + 1) & ~(EAS_I32) 1;"),
("md_ins_only", "C33", D, "        if (temp != CHUNK_INS)\n            continue;", "        if (temp != CHUNK_INS)\n            break;"),
("md_lar2_first", "C33 C24", D, "    if (lartPos)\n        if ((result = Parse_lart(pDLSData, lartPos, lartSize, &art)) != EAS_SUCCESS)\n            return result;\n    if (lar2Pos)\n        if ((result = Parse_lart(pDLSData, lar2Pos, lar2Size, &art)) != EAS_SUCCESS)\n            return result;", "    if (lar2Pos)\n    {\n        if ((result = Parse_lart(pDLSData, lar2Pos, lar2Size, &art)) != EAS_SUCCESS)\n            return result;\n    }\n    else if (lartPos)\n        if ((result = Parse_lart(pDLSData, lartPos, lartSize, &art)) != EAS_SUCCESS)\n            return result;"),
("md_rgn_lar2", "C33 C24", D, "    if (lar2Pos)\n    {\n        if ((result = Parse_lart(pDLSData, lar2Pos, lar2Size, &art)) != EAS_SUCCESS)", "    if (lar2Pos && !lartPos)\n    {\n        if ((result = Parse_lart(pDLSData, lar2Pos, lar2Size, &art)) != EAS_SUCCESS)"),
("md_rgn_emptyins", "C33", D, "    if (pDLSData->regionCount == firstRegion)\n        return EAS_SUCCESS;", ""),
("md_drumbit", "C33 C24", D, "        bank |= 0x10000;", "        bank = 0x10000;"),
("md_bankmask", "C33 C02", D, "        /* melodic instrument */\n        bank &= 0x7f7f;", "        /* melodic instrument */\n        bank &= 0xffff;"),
("md_progmask", "C33 C02", D, "        program &= 0x7f;", "        program = 0x7f;"),
("md_rgn2", "C33 C24", D, "        if ((temp == CHUNK_RGN) || (temp == CHUNK_RGN2))", "        if (temp == CHUNK_RGN)"),
("md_extra_rgn", "C33", D, "            if (regionCount == numRegions)", "            if (regionCount > numRegions)"),
("md_lastflag", "C33 C02", D, "    if ((pDLSData->pDLS != NULL) && (pDLSData->regionCount > firstRegion))", "    if ((pDLSData->pDLS != NULL) && (regionCount > 0) && (regionCount == numRegions))"),
("md_cdlskip_rgn", "C33", D, "                /* if conditional chunk evaluates false, skip this list */\n                if (!temp)\n                    return EAS_SUCCESS;\n                break;\n\n            case CHUNK_RGNH:", "                break;\n\n            case CHUNK_RGNH:"),
("md_cdlskip_art", "C33", D, "                /* if conditional chunk evaluates false, skip this list */\n                if (!temp)\n                    return EAS_SUCCESS;\n                break;\n\n            case CHUNK_ART1:", "                break;\n\n            case CHUNK_ART1:"),
("md_cdl_top", "C33", D, "                if (!temp)\n                    return EAS_ERROR_UNRECOGNIZED_FORMAT;\n                break;", "                break;"),
("md_keyhi", "C33 C24", D, "        highKey = 127;", "        highKey = 126;"),
("md_velhi", "C33 C24", D, "        highVel = 127;", "        highVel = 126;"),
("md_lowvel", "C33 C24", D, "    pRgn->velLow = (EAS_U8) lowVel;", "    pRgn->velLow = (EAS_U8) (lowVel ? lowVel - 1 : 0);"),
("md_group", "C33 C24", D, "    pRgn->wtRegion.region.keyGroupAndFlags = keyGroup << 8;", "    pRgn->wtRegion.region.keyGroupAndFlags = (keyGroup & 7) << 8;"),
("md_nonexcl", "C24 C33 C15", D, "    if (optionFlags & F_RGN_OPTION_SELFNONEXCLUSIVE)", "    if (optionFlags == (F_RGN_OPTION_SELFNONEXCLUSIVE | 2))"),
("md_art12", "C33", D, "    if (art2Pos)\n    {", "    if (art2Pos && !art1Pos)\n    {"),
("md_artcontrol", "C24", D, "                (connTable[i].destination == destination) &&\n                (connTable[i].control == control))", "                (connTable[i].destination == destination))"),
("md_wlnk", "C33 C24", D, "pDLSData->fileHandle, pos + 8)) != EAS_SUCCESS)\n        return result;\n\n    /* read the index */", "pDLSData->fileHandle, pos + 6)) != EAS_SUCCESS)\n        return result;\n\n    /* read the index */"),
("md_cdl_sub", "C33", D, "                    x = x - y;", "                    x = y - x;"),
("md_cdl_div", "C33", D, "                    if (!y)\n                        return EAS_ERROR_FILE_FORMAT;\n", "                    if (!y)\n                        y = 1;\n"),
("md_cdl_lt", "C33", D, "                    x = (x < y);", "                    x = ((EAS_I32) x < (EAS_I32) y) ;if (y > x + 0x7fffffff) x = 0;"),
("md_cdl_ge", "C33", D, "                    x = (x >= y);", "                    x = (x > y);"),
("md_cdl_gt", "C33", D, "                    x = (x > y);", "                    x = (x >= y);"),
("md_cdl_not", "C33", D, "            x = !x;", "            x = ~x;"),
("md_cdl_land", "C33", D, "                    x = (x && y);", "                    x = ((x & y) != 0);"),
("md_cdl_depth", "C33", D, "    if (*pStackPtr >= (CDL_STACK_SIZE - 1)) {", "    if (*pStackPtr >= (CDL_STACK_SIZE - 2)) {"),
("md_cdl_qsup", "C33", D, "            x = QueryGUID(&dlsid, &y);", "            QueryGUID(&dlsid, &y); x = (y != 0);"),
("md_cdl_query_rate", "C33", D, "        *pValue = (EAS_U32) outputSampleRate;", "        *pValue = 44100;"),
("md_cdl_dls2", "C33", D, "    if (EAS_HWMemCmp(&DLSID_SupportsDLS2, pGUID, sizeof(DLSID)) == 0)\n        return EAS_TRUE;", "    if (EAS_HWMemCmp(&DLSID_SupportsDLS2, pGUID, sizeof(DLSID)) == 0)\n    {\n        *pValue = 0xffffffff;\n        return EAS_TRUE;\n    }"),
("md_ptbl_inc", "C02 C33", D, "        if (temp > (EAS_U32) wtblSize)", "        if (temp >= (EAS_U32) wtblSize - 64)"),
("md_ptblpos", "C33", D, "                ptblPos = chunkPos + 8;\n                ptblSize = size - 4;", "                ptblPos = chunkPos + 8;\n                ptblSize = size - 8;"),
("md_rgn_art_idx", "C24 C33", D, "            artIndex = (EAS_U16) pDLSData->artCount;\n        }\n\n        /* parse region header */", "            if (artIndex == 0)\n                artIndex = (EAS_U16) pDLSData->artCount;\n        }\n\n        /* parse region header */"),
("md_artcount", "C33 C02", D, "    dls.artCount = 1;", "    dls.artCount = 0;"),
("md_wsmpcopy", "C33 C24", D, "            EAS_HWMemCpy(&wsmp, pWsmp, sizeof(wsmp));\n", "            EAS_HWMemSet(&wsmp, 0, sizeof(wsmp));\n            wsmp.sampleRate = outputSampleRate;\n"),
("md_sustain", "C24", D, "    if (sustain == 0)\n        return 0;", "    if (sustain <= 10)\n        return 0;"),
("md_delayclip", "C24 C02", D, "    temp = EAS_LogToLinear16(temp - (15 << 10));\n\n    if (temp < SYNTH_FULL_SCALE_EG1_GAIN)\n        return (EAS_I16) temp;\n    return SYNTH_FULL_SCALE_EG1_GAIN;", "    temp = EAS_LogToLinear16(temp - (15 << 10));\n\n    if (temp < 256)\n        return (EAS_I16) temp;\n    return 256;"),
("md_rateclip", "C24", D, "    if (timeCents == ZERO_TIME_IN_CENTS)\n        return SYNTH_FULL_SCALE_EG1_GAIN;", "    if (timeCents == ZERO_TIME_IN_CENTS)\n        return 0;"),
("md_lfomin", "C24", D, "    if (pitchCents < MIN_LFO_FREQUENCY_IN_PITCHCENTS)\n        pitchCents = MIN_LFO_FREQUENCY_IN_PITCHCENTS;", ""),
("md_lfomax", "C24", D, "    if (pitchCents > MAX_LFO_FREQUENCY_IN_PITCHCENTS)\n        pitchCents = MAX_LFO_FREQUENCY_IN_PITCHCENTS;", ""),
("md_qmax", "C24 C02", D, "        q = FILTER_RESONANCE_NUM_ENTRIES - 1;", "        q = FILTER_RESONANCE_NUM_ENTRIES / 2;"),
("md_velgain", "C24", D, "        pArt->filterQandFlags |= FLAG_DLS_VELOCITY_SENSITIVE;", "        pArt->filterQandFlags = FLAG_DLS_VELOCITY_SENSITIVE;"),
("md_finetune", "C24 C33", D, "pWsmp->fineTune -(pWsmp->unityNote * 100)", "(pWsmp->fineTune & ~1) -(pWsmp->unityNote * 100)"),
("md_gainshift", "C24", D, "(EAS_I16) (pWsmp->gain >> 16);", "(EAS_I16) ((pWsmp->gain >> 17) << 1);"),
("md_egshut", "C24 C14", D, "pArt->eg1ShutdownTime = ConvertRate(pDLSArt->values[PARAM_VOL_EG_SHUTDOWN]);", "pArt->eg1ShutdownTime = ConvertRate(pDLSArt->values[PARAM_VOL_EG_RELEASE]);"),
("md_presstopitch", "C24", D, "pArt->modLFOChanPressToPitch = pDLSArt->values[PARAM_MOD_LFO_CHAN_PRESS_TO_PITCH];", "pArt->modLFOChanPressToPitch = pDLSArt->values[PARAM_MOD_LFO_CC1_TO_PITCH];"),
("md_presstogain", "C24", D, "pArt->modLFOChanPressToGain = pDLSArt->values[PARAM_MOD_LFO_CHAN_PRESS_TO_GAIN];", "pArt->modLFOChanPressToGain = pDLSArt->values[PARAM_MOD_LFO_CC1_TO_GAIN];"),
("md_vibpress", "C24", D, "pArt->vibLFOChanPressToPitch = pDLSArt->values[PARAM_VIB_LFO_CHAN_PRESS_TO_PITCH];", "pArt->vibLFOChanPressToPitch = 0;"),
("md_eg2hold", "C24", D, "pArt->eg2.keyNumToHold = pDLSArt->values[PARAM_MOD_EG_KEY_TO_HOLD];", "pArt->eg2.keyNumToHold = pDLSArt->values[PARAM_MOD_EG_KEY_TO_DECAY];"),
("md_eg1hold", "C24", D, "pArt->eg1.keyNumToHold = pDLSArt->values[PARAM_VOL_EG_KEY_TO_HOLD];", "pArt->eg1.keyNumToHold = pDLSArt->values[PARAM_VOL_EG_KEY_TO_DECAY];"),
("md_eg2vel", "C24", D, "pArt->eg2.velToAttack = pDLSArt->values[PARAM_MOD_EG_VEL_TO_ATTACK];", "pArt->eg2.velToAttack = 0;"),
("md_eg1vel", "C24", D, "pArt->eg1.velToAttack = pDLSArt->values[PARAM_VOL_EG_VEL_TO_ATTACK];", "pArt->eg1.velToAttack = 0;"),
# --- effects
("rv_presetnow", "C20", R, "    if (pReverbData->m_nNextRoom != pReverbData->m_nCurrentRoom)\n    {\n        ReverbUpdateRoom(pReverbData);\n    }\n\n    ReverbUpdateXfade", "    ReverbUpdateXfade"),
("rv_fbkL", "C20 C21", R, "            (EAS_PCM)SATURATE((EAS_I32)pReverbData->m_zLpf1 + (EAS_I32)pReverbData->m_zLpf0);", "            (EAS_PCM)((EAS_I32)pReverbData->m_zLpf1 + (EAS_I32)pReverbData->m_zLpf0);"),
("rv_outsatL", "C20 C21", R, "        tempValue += *pOutputBuffer;\n        *pOutputBuffer++ = (EAS_PCM)SATURATE(tempValue);", "        tempValue += *pOutputBuffer;\n        *pOutputBuffer++ = (EAS_PCM)(tempValue);"),
("rv_outsatR", "C20 C21", R, "        tempValue = tempValue + *pOutputBuffer;\n        *pOutputBuffer++ = (EAS_PCM)SATURATE(tempValue);", "        tempValue = tempValue + *pOutputBuffer;\n        *pOutputBuffer++ = (EAS_PCM)(tempValue);"),
("rv_base", "C20 C09", R, "    pReverbData->m_nBaseIndex = nBase;\n", ""),
("rv_multzero", "C20 C08", R, "(((EAS_I32)(gain) * (EAS_I32)(damping)) / 32768)", "(((EAS_I32)(gain) * (EAS_I32)(damping)) >> 15)"),
("rv_dryparam", "C20 C18", R, "        case EAS_PARAM_REVERB_DRY:\n            *pValue = p->m_nDry;", "        case EAS_PARAM_REVERB_DRY:\n            *pValue = 32767 - p->m_nWet;"),
("rv_presetget", "C20 C18", R, "            *pValue = (EAS_I8) p->m_nCurrentRoom;", "            *pValue = (EAS_I8) p->m_nNextRoom;"),
("rv_noise", "C20 C08", R, "    *pnNoise = (EAS_I16) (*pnNoise * 5 + 1);", "    *pnNoise = (EAS_I16) (*pnNoise * 5);"),
("rv_wetzero", "C20", R, "        (pReverbData->m_nWet == 0 && pReverbData->m_nDry == 32767))", "        (pReverbData->m_nWet == 0))"),
("ch_rateR", "C20", C, "                pChorusData->lfoRPhase += rate;", "                pChorusData->lfoRPhase += rate + (rate >> 3);"),
("ch_wrapL", "C20 C21", C, "                if ((pChorusData->chorusIndexL+=1) >= CHORUS_L_SIZE)", "                if ((pChorusData->chorusIndexL+=1) >= CHORUS_L_SIZE - 1)"),
("ch_tapidx0", "C20 C01", C, "        val2 = array[indexLimit-1]; //get last value from array", "        val2 = array[indexLimit]; //get last value from array"),
("ch_sat", "C20 C21", C, "                nOutputSample = SATURATE(tempValue + nInputSample);\n\n                *pOut = (EAS_I16)SATURATE(nOutputSample);\n                pOut += NUM_OUTPUT_CHANNELS;\n\n\n", "                nOutputSample = (tempValue + nInputSample);\n\n                *pOut = (EAS_I16)(nOutputSample);\n                pOut += NUM_OUTPUT_CHANNELS;\n\n\n"),
("ch_level0", "C20", C, "    if (pChorusData->bypass == EAS_TRUE || pChorusData->m_nLevel == 0)", "    if (pChorusData->bypass == EAS_TRUE || pChorusData->m_nLevel < 256)"),
("ch_presetkeep", "C20 C18", C, "            if (p->m_nNextChorus != p->m_nCurrentChorus)\n                ChorusUpdate(p);", ""),
("ch_bypasstrue", "C20 C18", C, "    if (pChorusData->bypass == EAS_TRUE ||", "    if (pChorusData->bypass ||"),
# --- math
("ma_maxcents", "C25 C24", MA, "    if (nCents > MAX_CENTS) {\n        nCents = MAX_CENTS;\n    }", ""),
("ma_log0", "C24 C19", MA, "    if (nExp < 0)\n        return 0x7fff;", "    if (nExp < 0)\n        nExp = 0;"),
("ma_vol100", "C19", MA, "    if (volume >= 100)\n        return 0x7fff;", "    if (volume >= 100)\n        volume = 100;"),
("pan_hard", "C19", PAN, "    if (pan < -63)\n        netAngle = -63;", "    if (pan < -62)\n        netAngle = -62;"),
# --- XMF
("xm_depth", "C31 C01", Y, "    if ( depth > 100 )", "    if ( depth > 4 )"),
("xm_fileofs", "C31", Y, "            offset += pXMFData->fileOffset;\n", ""),
("xm_type", "C31 C23", Y, "        else if (*pValue == EAS_FILE_SMF1)\n            *pValue = EAS_FILE_XMF1;", ""),
("xm_pdls", "C31 C05", Y, "    if ((pXMFData->dlsOffset != 0) && (pXMFData->pDLS == NULL))", "    if (pXMFData->dlsOffset != 0)"),
("xm_initch", "C31 C30", Y, "        VMInitializeAllChannels(pEASData->pVoiceMgr, pSynth);\n        if (pOldDLS != NULL)", "        if (pOldDLS != NULL)"),
("xm_olddls", "C31 C05", Y, "        if (pOldDLS != NULL)\n            DLSCleanup(pEASData->hwInstData, pOldDLS);", ""),
("xm_closedls", "C05", Y, "    if (pXMFData->pDLS)\n        DLSCleanup(pEASData->hwInstData, pXMFData->pDLS);\n\n    /* if using dynamic", "    /* if using dynamic"),
]

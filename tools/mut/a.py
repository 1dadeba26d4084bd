V = "eas_voicemgt.c"
M = [
("vm_lib_dls_addref", "C05 C02", V, "        DLSAddRef(pSynth->pDLS);\n    }\n#endif\n\n    /* initialize MIDI", "    }\n#endif\n\n    /* initialize MIDI"),
("vm_reset_finepitch", "C28 C29 C13", V, "        pChannel->finePitch = DEFAULT_FINE_PITCH;\n        pChannel->coarsePitch = DEFAULT_COARSE_PITCH;\n\n        /* update all voices", "        pChannel->coarsePitch = DEFAULT_COARSE_PITCH;\n\n        /* update all voices"),
("vm_reset_rpnsel", "C28 C29", V, "        pChannel->channelPressure = DEFAULT_CHANNEL_PRESSURE;\n        pChannel->registeredParam = DEFAULT_REGISTERED_PARAM;\n        pChannel->pitchBendS", "        pChannel->channelPressure = DEFAULT_CHANNEL_PRESSURE;\n        pChannel->pitchBendS"),
("vm_reset_reverbsend", "C28 C29 C13", V, "        pSynth->channels[i].reverbSend = DEFAULT_REVERB_SEND;", "        if (pSynth->channels[i].channelFlags == 0) pSynth->channels[i].reverbSend = DEFAULT_REVERB_SEND;"),
("vm_reset_press", "C28 C29", V, "        pChannel->channelPressure = DEFAULT_CHANNEL_PRESSURE;\n        pChannel->registeredParam", "        pChannel->registeredParam"),
("vm_cc121_press", "C28", V, "        pChannel->channelPressure = DEFAULT_CHANNEL_PRESSURE;\n\n        /* reset RPN values */", "        /* reset RPN values */"),
("vm_cc121_pedalheld", "C28 C15", V, "            VMReleaseAllDeferredNoteOffs(pVoiceMgr, pSynth, channel);\n        pChannel->channelFlags &= ~CHANNEL_FLAG_SUSTAIN_PEDAL;", "            pChannel->channelFlags &= ~CHANNEL_FLAG_SUSTAIN_PEDAL;"),
("vm_chaninit_rhythm", "C28 C30 C29", V, "        pChannel->channelFlags = DEFAULT_CHANNEL_FLAGS;\n        pChannel->staticGain", "        pChannel->channelFlags = DEFAULT_CHANNEL_FLAGS | (pChannel->channelFlags & CHANNEL_FLAG_RHYTHM_CHANNEL);\n        pChannel->staticGain"),
("vm_relall_start", "C08 C15", V, "            case eVoiceStateStart:\n            case eVoiceStatePlay:\n                /* only release voices on this synth */", "            case eVoiceStatePlay:\n                /* only release voices on this synth */"),
("vm_relall_pedal", "C08 C15 C29", V, "            pSynth->channels[i].channelFlags &= ~CHANNEL_FLAG_SUSTAIN_PEDAL;\n        }\n    }\n\n    /* release all voices */", "        }\n    }\n\n    /* release all voices */"),
("vm_alloff_stolen", "C15 C28", V, "((pVoice->voiceState == eVoiceStateStolen) && (channel == pVoice->nextChannel)))\n            {\n                /* this voice is assigned", "((pVoice->voiceState == eVoiceStateStolen) && (channel == pVoice->channel)))\n            {\n                /* this voice is assigned"),
("vm_catch_synth", "C15 C27", V, "    pVoiceMgr->workload += WORKLOAD_AMOUNT_SMALL_INCREMENT;\n    channel = VSynthToChannel(pSynth, channel);\n\n    /* find all the voices", "    pVoiceMgr->workload += WORKLOAD_AMOUNT_SMALL_INCREMENT;\n\n    /* find all the voices"),
("vm_defer_sustain", "C15", V, "                    pVoiceMgr->voices[voiceNum].voiceFlags |= VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF;\n                }\n\n                /* release this voice */\n                else\n                    VMRel", "                    pVoiceMgr->voices[voiceNum].voiceFlags &= ~VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF;\n                }\n\n                /* release this voice */\n                else\n                    VMRel"),
("vm_stolen_deferflag", "C15", V, "        VOICE_FLAG_DEFER_MUTE |\n        VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF);", "        VOICE_FLAG_DEFER_MUTE);"),
("vm_stolen_offflag", "C15", V, "        ~(VOICE_FLAG_DEFER_MIDI_NOTE_OFF |\n        VOICE_FLAG_DEFER_MUTE |", "        ~(VOICE_FLAG_DEFER_MUTE |"),
("vm_retarget_velocity", "C19 C21 C15", V, "    pVoice->velocity = pVoice->nextVelocity;\n", "    if (pVoice->nextVelocity > pVoice->velocity) pVoice->velocity = pVoice->nextVelocity;\n"),
("vm_retarget_off", "C15", V, "        pNextSynth->synthFlags |= SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING;", "        pSynth->synthFlags |= SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING;"),
("vm_retarget_count", "C14 C27 C08", V, "    if (pVoice->channel != pVoice->nextChannel)\n", "    if ((pVoice->channel & 15) != (pVoice->nextChannel & 15))\n"),
("vm_keygroup_stolen", "C30", V, "            if (channel == pVoiceMgr->voices[voiceNum].nextChannel)\n            {\n                /* check key group */", "            if (channel == pVoiceMgr->voices[voiceNum].channel)\n            {\n                /* check key group */"),
("vm_keygroup_stolenrgn", "C30", V, "pRegion = GetRegionPtr(pSynth, pVoiceMgr->voices[voiceNum].nextRegionIndex);", "pRegion = GetRegionPtr(pSynth, pVoiceMgr->voices[voiceNum].regionIndex);"),
("vm_keygroup_mask", "C30", V, "keyGroup = pRegion->keyGroupAndFlags & 0x0f00;", "keyGroup = pRegion->keyGroupAndFlags & 0x0700;"),
("vm_keygroup_chan", "C30 C27", V, "    /* need to check all voices in case this is a layered sound */\n    channel = VSynthToChannel(pSynth, channel);", "    /* need to check all voices in case this is a layered sound */"),
("vm_maxpoly_le", "C14", V, "        (voicesUsed < maxSynthPoly) &&", "        (voicesUsed <= maxSynthPoly) &&"),
("vm_rhythm_transpose", "C25", V, "        adjustedNote += pChannel->coarsePitch;\n    else", "        adjustedNote += pChannel->coarsePitch + pSynth->globalTranspose;\n    else"),
("vm_dls_velhigh", "C24", V, "(velocity <= pDLSRegion->velHigh)))", "(velocity < pDLSRegion->velHigh)))"),
("vm_stop_pedal", "C15 C24", V, "|= VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF;\n                    continue;", "|= VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF;\n                    return;"),
("vm_stop_stolen", "C15", V, "        else if ((channel == pVoiceMgr->voices[voiceNum].nextChannel) && (note == pVoiceMgr->voices[voiceNum].nextNote))\n", "        else if ((channel == pVoiceMgr->voices[voiceNum].channel) && (note == pVoiceMgr->voices[voiceNum].nextNote))\n"),
("vm_steal_prio", "C27 C14", V, "        if (pSynth->priority > pCurrSynth->priority)\n            continue;", "        if (pSynth->priority > pCurrSynth->priority + 1)\n            continue;"),
("vm_bank_lsb", "C30", V, "        pChannel->bankNum = value << 8;", "        pChannel->bankNum = (value << 8) | (pChannel->bankNum & 0xff);"),
("vm_omni", "C15", V, "    case MIDI_CONTROLLER_OMNI_OFF:\n", ""),
("vm_nrpn", "C25", V, "    case MIDI_CONTROLLER_SELECT_NRPN_LSB:\n        pChannel->registeredParam", "        pChannel->registeredParam"),
("vm_rpn_msb", "C25", V, "(pChannel->registeredParam & 0x7F) | (value<<7);", "(pChannel->registeredParam & 0x7F) | (value<<8);"),
("vm_fine_round", "C25", V, "(((value << 7) - 8192) * 100) >> 13);", "(((value << 7) - 8192) * 50) >> 13);"),
("vm_updall", "C19 C28", V, "        pSynth->synthFlags &= ~SYNTH_FLAG_UPDATE_ALL_CHANNEL_PARAMETERS;\n    }\n    else", "        pSynth->synthFlags &= ~SYNTH_FLAG_UPDATE_ALL_CHANNEL_PARAMETERS;\n        for (channel = 1; channel < NUM_SYNTH_CHANNELS; channel++) pSynth->channels[channel].channelFlags &= ~CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;\n    }\n    else"),
("vm_dls_drumfallback", "C24 C30", V, "            locale = ((0x10000 | DEFAULT_RHYTHM_BANK_NUMBER) << 8) | programNum;", "            locale = (DEFAULT_RHYTHM_BANK_NUMBER << 8) | programNum;"),
("vm_dls_bank0", "C24 C30", V, "        locale = ((bank & 0x10000) << 8) | programNum;", "        locale = programNum;"),
("vm_dls_drumprog0", "C24 C30", V, "        locale = (0x10000 << 8);", "        locale = (0x10000 << 8) | programNum;"),
("vm_prog_melodic", "C30", V, "        /* make it a melody channel */\n        pChannel->channelFlags &= ~CHANNEL_FLAG_RHYTHM_CHANNEL;", "        /* make it a melody channel */\n        if (channel != DEFAULT_DRUM_CHANNEL) pChannel->channelFlags &= ~CHANNEL_FLAG_RHYTHM_CHANNEL;"),
("vm_prog_fallback", "C30", V, "                if (VMFindProgram(pSynth->pEAS, bank, 0, &regionIndex) != EAS_SUCCESS)", "                if (VMFindProgram(pSynth->pEAS, pChannel->bankNum, 0, &regionIndex) != EAS_SUCCESS)"),
("vm_sp_synth_poly0", "C14 C18", V, "    if ((polyphonyCount == 0) || (polyphonyCount > MAX_SYNTH_VOICES))\n    {\n        pSynth->maxPolyphony = 0;", "    if ((polyphonyCount == 0) || (polyphonyCount >= MAX_SYNTH_VOICES))\n    {\n        pSynth->maxPolyphony = 0;"),
("vm_setpoly_synth", "C14 C27", V, "            /* this synth? */\n            if (GET_VSYNTH(currChannel) != pSynth->vSynthNum)\n                continue;", "            /* this synth? */\n            if (GET_VSYNTH(pVoice->channel) != pSynth->vSynthNum)\n                continue;"),
("vm_prio15", "C18", V, "(priority > 15))", "(priority > 14))"),
("vm_deferclear", "C15", V, "                deferredNoteOff = EAS_TRUE;\n", ""),
("vm_shutdown_order", "C05 C04 C02", V, "    /* silence all voices before the sound libraries they use are released */\n    VMReset(pEASData->pVoiceMgr, pSynth, EAS_TRUE);\n", "    VMReset(pEASData->pVoiceMgr, pSynth, EAS_FALSE);\n"),
("vm_initallvoices", "C27 C14 C04", V, "        else\n        {\n            if (GET_VSYNTH(pVoiceMgr->voices[i].nextChannel) == vSynthNum)\n                InitVoice", "        else\n        {\n            if (GET_VSYNTH(pVoiceMgr->voices[i].channel) == vSynthNum)\n                InitVoice"),
("vm_defermute", "C30 C15", V, "                pVoiceMgr->voices[voiceNum].voiceFlags &= ~(VOICE_FLAG_DEFER_MUTE | VOICE_FLAG_DEFER_MIDI_NOTE_OFF);", "                pVoiceMgr->voices[voiceNum].voiceFlags &= ~VOICE_FLAG_DEFER_MIDI_NOTE_OFF;"),
]

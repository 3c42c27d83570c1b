"""Usages as the HID usage tables (and the requests HUTRR30..84) assign them, with their types
(none given for sensors and lighting)."""

TABLE = {
    "desktop": {
        "Pointer": (0x1, "CP"), "Mouse": (0x2, "CA"), "Joystick": (0x4, "CA"), "Gamepad": (0x5, "CA"),
        "Keyboard": (0x6, "CA"), "Keypad": (0x7, "CA"), "MultiAxisCtrl": (0x8, "CA"), "TabletPCSystem": (0x9, "CA"),
        "WirelessRadioControls": (0xc, "CA"), "PortableDeviceControl": (0xd, "CA"), "X": (0x30, "DV"),
        "Y": (0x31, "DV"), "Z": (0x32, "DV"), "Rx": (0x33, "DV"), "Ry": (0x34, "DV"), "Rz": (0x35, "DV"),
        "Slider": (0x36, "DV"), "Dial": (0x37, "DV"), "Wheel": (0x38, "DV"), "HatSwitch": (0x39, "DV"),
        "CountedBuffer": (0x3a, "CL"), "ByteCount": (0x3b, "DV"), "MotionWakeup": (0x3c, "OSC"),
        "Start": (0x3d, "OOC"), "Select": (0x3e, "OOC"), "Vx": (0x40, "DV"), "Vy": (0x41, "DV"), "Vz": (0x42, "DV"),
        "Vbrx": (0x43, "DV"), "Vbry": (0x44, "DV"), "Vbrz": (0x45, "DV"), "Vno": (0x46, "DV"),
        "FeatureNotification": (0x47, "DV"), "ResolutionMultiplier": (0x48, "DV"), "SysControl": (0x80, "CA"),
        "SysPowerDown": (0x81, "OSC"), "SysSleep": (0x82, "OSC"), "SysWakeUp": (0x83, "OSC"),
        "SysContextMenu": (0x84, "OSC"), "SysMainMenu": (0x85, "OSC"), "SysAppMenu": (0x86, "OSC"),
        "SysMenuHelp": (0x87, "OSC"), "SysMenuExit": (0x88, "OSC"), "SysMenuSelect": (0x89, "OSC"),
        "SysMenuRight": (0x8a, "RTC"), "SysMenuLeft": (0x8b, "RTC"), "SysMenuUp": (0x8c, "RTC"),
        "SysMenuDown": (0x8d, "RTC"), "SysColdRestart": (0x8e, "OSC"), "SysWarmRestart": (0x8f, "OSC"),
        "DPadUp": (0x90, "OOC"), "DPadDown": (0x91, "OOC"), "DPadRight": (0x92, "OOC"), "DPadLeft": (0x93, "OOC"),
        "SysDock": (0xa0, "OSC"), "SysUndock": (0xa1, "OSC"), "SysSetup": (0xa2, "OSC"), "SysBreak": (0xa3, "OSC"),
        "SysDbgrBreak": (0xa4, "OSC"), "AppBreak": (0xa5, "OSC"), "AppDbgrBreak": (0xa6, "OSC"),
        "SysSpeakerMute": (0xa7, "OSC"), "SysHibernate": (0xa8, "OSC"), "SysDsplInvert": (0xb0, "OSC"),
        "SysDsplInternal": (0xb1, "OSC"), "SysDsplExternal": (0xb2, "OSC"), "SysDsplBoth": (0xb3, "OSC"),
        "SysDsplDual": (0xb4, "OSC"), "SysDsplToggleIntExt": (0xb5, "OSC"), "SysDsplSwap12": (0xb6, "OSC"),
        "SysDsplLcdAutoscale": (0xb7, "OSC"), "WirelessRadioButton": (0xc6, "OOC"), "WirelessRadioLed": (0xc7, "OOC"),
        "WirelessRadioSliderSwitch": (0xc8, "OOC"), "SystemDisplayRotationLockButton": (0xc9, "OOC"),
        "SystemDisplayRotationLockSliderSwitch": (0xca, "OOC"), "ControlEnable": (0xcb, "DF"),
    },
    "simulation": {
        "FlightSimulationDevice": (0x1, "CA"), "AutomobileSimulationDevice": (0x2, "CA"),
        "TankSimulationDevice": (0x3, "CA"), "SpaceshipSimulationDevice": (0x4, "CA"),
        "SubmarineSimulationDevice": (0x5, "CA"), "SailingSimulationDevice": (0x6, "CA"),
        "MotorcycleSimulationDevice": (0x7, "CA"), "SportsSimulationDevice": (0x8, "CA"),
        "AirplaneSimulationDevice": (0x9, "CA"), "HelicopterSimulationDevice": (0xa, "CA"),
        "MagicCarpetSimulationDevice": (0xb, "CA"), "BicycleSimulationDevice": (0xc, "CA"),
        "FlightControlStick": (0x20, "CA"), "FlightStick": (0x21, "CA"), "CyclicControl": (0x22, "CP"),
        "CyclicTrim": (0x23, "CP"), "FlightYoke": (0x24, "CA"), "TrackControl": (0x25, "CP"), "Aileron": (0xb0, "DV"),
        "AileronTrim": (0xb1, "DV"), "AntiTorqueControl": (0xb2, "DV"), "AutopilotEnable": (0xb3, "OOC"),
        "ChaffRelease": (0xb4, "OSC"), "CollectiveControl": (0xb5, "DV"), "DiveBrake": (0xb6, "DV"),
        "ElectronicCountermeasures": (0xb7, "OOC"), "Elevator": (0xb8, "DV"), "ElevatorTrim": (0xb9, "DV"),
        "Rudder": (0xba, "DV"), "Throttle": (0xbb, "DV"), "FlightCommunications": (0xbc, "OOC"),
        "FlareRelease": (0xbd, "OSC"), "LandingGear": (0xbe, "OOC"), "ToeBrake": (0xbf, "DV"),
        "Trigger": (0xc0, "MC"), "WeaponsArm": (0xc1, "OOC"), "WeaponsSelect": (0xc2, "OSC"),
        "WingFlaps": (0xc3, "DV"), "Accelerator": (0xc4, "DV"), "Brake": (0xc5, "DV"), "Clutch": (0xc6, "DV"),
        "Shifter": (0xc7, "DV"), "Steering": (0xc8, "DV"), "TurretDirection": (0xc9, "DV"),
        "BarrelElevation": (0xca, "DV"), "DivePlane": (0xcb, "DV"), "Ballast": (0xcc, "DV"),
        "BicycleCrank": (0xcd, "DV"), "HandleBars": (0xce, "DV"), "FrontBrake": (0xcf, "DV"),
        "RearBrake": (0xd0, "DV"),
    },
    "vr": {
        "Belt": (0x1, "CA"), "BodySuit": (0x2, "CA"), "Flexor": (0x3, "CP"), "Glove": (0x4, "CA"),
        "HeadTracker": (0x5, "CP"), "HeadMountedDisplay": (0x6, "CA"), "HandTracker": (0x7, "CA"),
        "Oculometer": (0x8, "CA"), "Vest": (0x9, "CA"), "AnimatronicDevice": (0xa, "CA"),
        "StereoEnable": (0x20, "OOC"), "DisplayEnable": (0x21, "OOC"),
    },
    "game": {
        "ThreeDGameController": (0x1, "CA"), "PinballDevice": (0x2, "CA"), "GunDevice": (0x3, "CA"),
        "PointofView": (0x20, "CP"), "TurnRightLeft": (0x21, "DV"), "PitchForwardBackward": (0x22, "DV"),
        "RollRightLeft": (0x23, "DV"), "MoveRightLeft": (0x24, "DV"), "MoveForwardBackward": (0x25, "DV"),
        "MoveUpDown": (0x26, "DV"), "LeanRightLeft": (0x27, "DV"), "LeanForwardBackward": (0x28, "DV"),
        "HeightofPOV": (0x29, "DV"), "Flipper": (0x2a, "MC"), "SecondaryFlipper": (0x2b, "MC"), "Bump": (0x2c, "MC"),
        "NewGame": (0x2d, "OSC"), "ShootBall": (0x2e, "OSC"), "Player": (0x2f, "OSC"), "GunBolt": (0x30, "OOC"),
        "GunClip": (0x31, "OOC"), "GunSelector": (0x32, "NAry"), "GunSingleShot": (0x33, "Sel"),
        "GunBurst": (0x34, "Sel"), "GunAutomatic": (0x35, "Sel"), "GunSafety": (0x36, "OOC"),
        "GamepadFireJump": (0x37, "CL"), "GamepadTrigger": (0x39, "CL"),
    },
    "device": {
        "BatteryStrength": (0x20, "DV"), "WirelessChannel": (0x21, "DV"), "WirelessID": (0x22, "DV"),
        "DiscoverWirelessControl": (0x23, "OSC"), "SecurityCodeCharacterEntered": (0x24, "OSC"),
        "SecurityCodeCharacterErased": (0x25, "OSC"), "SecurityCodeCleared": (0x26, "OSC"),
    },
    "keyboard": {
        "NoEvent": (0x0, "Sel"), "Rollover": (0x1, "Sel"), "Postfail": (0x2, "Sel"), "Undefined": (0x3, "Sel"),
        "A": (0x4, "Sel"), "B": (0x5, "Sel"), "C": (0x6, "Sel"), "D": (0x7, "Sel"), "E": (0x8, "Sel"),
        "F": (0x9, "Sel"), "G": (0xa, "Sel"), "H": (0xb, "Sel"), "I": (0xc, "Sel"), "J": (0xd, "Sel"),
        "K": (0xe, "Sel"), "L": (0xf, "Sel"), "M": (0x10, "Sel"), "N": (0x11, "Sel"), "O": (0x12, "Sel"),
        "P": (0x13, "Sel"), "Q": (0x14, "Sel"), "R": (0x15, "Sel"), "S": (0x16, "Sel"), "T": (0x17, "Sel"),
        "U": (0x18, "Sel"), "V": (0x19, "Sel"), "W": (0x1a, "Sel"), "X": (0x1b, "Sel"), "Y": (0x1c, "Sel"),
        "Z": (0x1d, "Sel"), "OneAndExclam": (0x1e, "Sel"), "TwoAndAt": (0x1f, "Sel"), "ThreeAndNumber": (0x20, "Sel"),
        "FourAndDollar": (0x21, "Sel"), "FiveAndPercent": (0x22, "Sel"), "SixAndCaret": (0x23, "Sel"),
        "SevenAndAmp": (0x24, "Sel"), "EightAndStar": (0x25, "Sel"), "NineAndLeftParen": (0x26, "Sel"),
        "ZeroAndRightParen": (0x27, "Sel"), "ReturnEnter": (0x28, "Sel"), "Escape": (0x29, "Sel"),
        "DeleteBackspace": (0x2a, "Sel"), "Tab": (0x2b, "Sel"), "Spacebar": (0x2c, "Sel"),
        "MinusAndUnderscore": (0x2d, "Sel"), "EqualAndPlus": (0x2e, "Sel"), "LeftBoxAndLeftCurly": (0x2f, "Sel"),
        "RightBoxAndRightCurly": (0x30, "Sel"), "BackslashAndPipe": (0x31, "Sel"),
        "NonUsNumberAndTilde": (0x32, "Sel"), "SemicolonAndColon": (0x33, "Sel"), "QuotAndDoubleQuot": (0x34, "Sel"),
        "GraveAccentAndTilde": (0x35, "Sel"), "CommaAndLt": (0x36, "Sel"), "PeriodAndGt": (0x37, "Sel"),
        "SlashAndQuestion": (0x38, "Sel"), "CapsLock": (0x39, "Sel"), "F1": (0x3a, "Sel"), "F2": (0x3b, "Sel"),
        "F3": (0x3c, "Sel"), "F4": (0x3d, "Sel"), "F5": (0x3e, "Sel"), "F6": (0x3f, "Sel"), "F7": (0x40, "Sel"),
        "F8": (0x41, "Sel"), "F9": (0x42, "Sel"), "F10": (0x43, "Sel"), "F11": (0x44, "Sel"), "F12": (0x45, "Sel"),
        "PrintScreen": (0x46, "Sel"), "ScrollLock": (0x47, "Sel"), "Pause": (0x48, "Sel"), "Insert": (0x49, "Sel"),
        "Home": (0x4a, "Sel"), "Pageup": (0x4b, "Sel"), "DeleteForward": (0x4c, "Sel"), "End": (0x4d, "Sel"),
        "Pagedown": (0x4e, "Sel"), "Rightarrow": (0x4f, "Sel"), "Leftarrow": (0x50, "Sel"),
        "Downarrow": (0x51, "Sel"), "Uparrow": (0x52, "Sel"), "KeypadNumLockAndClear": (0x53, "Sel"),
        "KeypadSlash": (0x54, "Sel"), "KeypadStar": (0x55, "Sel"), "KeypadMinus": (0x56, "Sel"),
        "KeypadPlus": (0x57, "Sel"), "KeypadEnter": (0x58, "Sel"), "Keypad1AndEnd": (0x59, "Sel"),
        "Keypad2AndDownArrow": (0x5a, "Sel"), "Keypad3AndPagedn": (0x5b, "Sel"), "Keypad4AndLeftArrow": (0x5c, "Sel"),
        "Keypad5": (0x5d, "Sel"), "Keypad6AndRightArrow": (0x5e, "Sel"), "Keypad7AndHome": (0x5f, "Sel"),
        "Keypad8AndUpArrow": (0x60, "Sel"), "Keypad9AndPageup": (0x61, "Sel"), "Keypad0AndInsert": (0x62, "Sel"),
        "KeypadPointAndDelete": (0x63, "Sel"), "NonUsBackslashAndPipe": (0x64, "Sel"), "Application": (0x65, "Sel"),
        "Power": (0x66, "Sel"), "KeypadEqual": (0x67, "Sel"), "F13": (0x68, "Sel"), "F14": (0x69, "Sel"),
        "F15": (0x6a, "Sel"), "F16": (0x6b, "Sel"), "F17": (0x6c, "Sel"), "F18": (0x6d, "Sel"), "F19": (0x6e, "Sel"),
        "F20": (0x6f, "Sel"), "F21": (0x70, "Sel"), "F22": (0x71, "Sel"), "F23": (0x72, "Sel"), "F24": (0x73, "Sel"),
        "Execute": (0x74, "Sel"), "Help": (0x75, "Sel"), "Menu": (0x76, "Sel"), "Select": (0x77, "Sel"),
        "Stop": (0x78, "Sel"), "Again": (0x79, "Sel"), "Undo": (0x7a, "Sel"), "Cut": (0x7b, "Sel"),
        "Copy": (0x7c, "Sel"), "Paste": (0x7d, "Sel"), "Find": (0x7e, "Sel"), "Mute": (0x7f, "Sel"),
        "VolumeUp": (0x80, "Sel"), "VolumeDown": (0x81, "Sel"), "LockingCapsLock": (0x82, "Sel"),
        "LockingNumLock": (0x83, "Sel"), "LockingScrollLock": (0x84, "Sel"), "KeypadComma": (0x85, "Sel"),
        "KeypadEqualAs400": (0x86, "Sel"), "International1": (0x87, "Sel"), "International2": (0x88, "Sel"),
        "International3": (0x89, "Sel"), "International4": (0x8a, "Sel"), "International5": (0x8b, "Sel"),
        "International6": (0x8c, "Sel"), "International7": (0x8d, "Sel"), "International8": (0x8e, "Sel"),
        "International9": (0x8f, "Sel"), "Lang1": (0x90, "Sel"), "Lang2": (0x91, "Sel"), "Lang3": (0x92, "Sel"),
        "Lang4": (0x93, "Sel"), "Lang5": (0x94, "Sel"), "Lang6": (0x95, "Sel"), "Lang7": (0x96, "Sel"),
        "Lang8": (0x97, "Sel"), "Lang9": (0x98, "Sel"), "AlternateErase": (0x99, "Sel"), "SysreqAttn": (0x9a, "Sel"),
        "Cancel": (0x9b, "Sel"), "Clear": (0x9c, "Sel"), "Prior": (0x9d, "Sel"), "Return": (0x9e, "Sel"),
        "Separator": (0x9f, "Sel"), "Out": (0xa0, "Sel"), "Oper": (0xa1, "Sel"), "ClearAgain": (0xa2, "Sel"),
        "CrselProps": (0xa3, "Sel"), "Exsel": (0xa4, "Sel"), "Keypad00": (0xb0, "Sel"), "Keypad000": (0xb1, "Sel"),
        "ThousandsSeparator": (0xb2, "Sel"), "DecimalSeparator": (0xb3, "Sel"), "CurrencyUnit": (0xb4, "Sel"),
        "CurrencySubMinusUnit": (0xb5, "Sel"), "KeypadLeftParen": (0xb6, "Sel"), "KeypadRightParen": (0xb7, "Sel"),
        "KeypadLeftCurly": (0xb8, "Sel"), "KeypadRightCurly": (0xb9, "Sel"), "KeypadTab": (0xba, "Sel"),
        "KeypadBackspace": (0xbb, "Sel"), "KeypadA": (0xbc, "Sel"), "KeypadB": (0xbd, "Sel"),
        "KeypadC": (0xbe, "Sel"), "KeypadD": (0xbf, "Sel"), "KeypadE": (0xc0, "Sel"), "KeypadF": (0xc1, "Sel"),
        "KeypadXor": (0xc2, "Sel"), "KeypadCaret": (0xc3, "Sel"), "KeypadPercent": (0xc4, "Sel"),
        "KeypadLt": (0xc5, "Sel"), "KeypadGt": (0xc6, "Sel"), "KeypadAmp": (0xc7, "Sel"),
        "KeypadAmpAmp": (0xc8, "Sel"), "KeypadPipe": (0xc9, "Sel"), "KeypadPipePipe": (0xca, "Sel"),
        "KeypadColon": (0xcb, "Sel"), "KeypadNumber": (0xcc, "Sel"), "KeypadSpace": (0xcd, "Sel"),
        "KeypadAt": (0xce, "Sel"), "KeypadExclam": (0xcf, "Sel"), "KeypadMemoryStore": (0xd0, "Sel"),
        "KeypadMemoryRecall": (0xd1, "Sel"), "KeypadMemoryClear": (0xd2, "Sel"), "KeypadMemoryAdd": (0xd3, "Sel"),
        "KeypadMemorySubtract": (0xd4, "Sel"), "KeypadMemoryMultiply": (0xd5, "Sel"),
        "KeypadMemoryDivide": (0xd6, "Sel"), "KeypadPlusMinus": (0xd7, "Sel"), "KeypadClear": (0xd8, "Sel"),
        "KeypadClearEntry": (0xd9, "Sel"), "KeypadBinary": (0xda, "Sel"), "KeypadOctal": (0xdb, "Sel"),
        "KeypadDecimal": (0xdc, "Sel"), "KeypadHexadecimal": (0xdd, "Sel"), "LeftControl": (0xe0, "DV"),
        "LeftShift": (0xe1, "DV"), "LeftAlt": (0xe2, "DV"), "LeftGui": (0xe3, "DV"), "RightControl": (0xe4, "DV"),
        "RightShift": (0xe5, "DV"), "RightAlt": (0xe6, "DV"), "RightGui": (0xe7, "DV"),
    },
    "led": {
        "NumLock": (0x1, "OOC"), "CapsLock": (0x2, "OOC"), "ScrollLock": (0x3, "OOC"), "Compose": (0x4, "OOC"),
        "Kana": (0x5, "OOC"), "Power": (0x6, "OOC"), "Shift": (0x7, "OOC"), "DoNotDisturb": (0x8, "OOC"),
        "Mute": (0x9, "OOC"), "ToneEnable": (0xa, "OOC"), "HighCutFilter": (0xb, "OOC"), "LowCutFilter": (0xc, "OOC"),
        "EqualizerEnable": (0xd, "OOC"), "SoundFieldOn": (0xe, "OOC"), "SurroundOn": (0xf, "OOC"),
        "Repeat": (0x10, "OOC"), "Stereo": (0x11, "OOC"), "SamplingRateDetect": (0x12, "OOC"),
        "Spinning": (0x13, "OOC"), "CAV": (0x14, "OOC"), "CLV": (0x15, "OOC"), "RecordingFormatDetect": (0x16, "OOC"),
        "OffHook": (0x17, "OOC"), "Ring": (0x18, "OOC"), "MessageWaiting": (0x19, "OOC"), "DataMode": (0x1a, "OOC"),
        "BatteryOperation": (0x1b, "OOC"), "BatteryOK": (0x1c, "OOC"), "BatteryLow": (0x1d, "OOC"),
        "Speaker": (0x1e, "OOC"), "HeadSet": (0x1f, "OOC"), "Hold": (0x20, "OOC"), "Microphone": (0x21, "OOC"),
        "Coverage": (0x22, "OOC"), "NightMode": (0x23, "OOC"), "SendCalls": (0x24, "OOC"),
        "CallPickup": (0x25, "OOC"), "Conference": (0x26, "OOC"), "StandBy": (0x27, "OOC"), "CameraOn": (0x28, "OOC"),
        "CameraOff": (0x29, "OOC"), "OnLine": (0x2a, "OOC"), "OffLine": (0x2b, "OOC"), "Busy": (0x2c, "OOC"),
        "Ready": (0x2d, "OOC"), "PaperOut": (0x2e, "OOC"), "PaperJam": (0x2f, "OOC"), "Remote": (0x30, "OOC"),
        "Forward": (0x31, "OOC"), "Reverse": (0x32, "OOC"), "Stop": (0x33, "OOC"), "Rewind": (0x34, "OOC"),
        "FastForward": (0x35, "OOC"), "Play": (0x36, "OOC"), "Pause": (0x37, "OOC"), "Record": (0x38, "OOC"),
        "Error": (0x39, "OOC"), "UsageSelectedIndicator": (0x3a, "US"), "UsageInUseIndicator": (0x3b, "US"),
        "UsageMultiModeIndicator": (0x3c, "UM"), "IndicatorOn": (0x3d, "Sel"), "IndicatorFlash": (0x3e, "Sel"),
        "IndicatorSlowBlink": (0x3f, "Sel"), "IndicatorFastBlink": (0x40, "Sel"), "IndicatorOff": (0x41, "Sel"),
        "FlashOnTime": (0x42, "DV"), "SlowBlinkOnTime": (0x43, "DV"), "SlowBlinkOffTime": (0x44, "DV"),
        "FastBlinkOnTime": (0x45, "DV"), "FastBlinkOffTime": (0x46, "DV"), "UsageIndicatorColor": (0x47, "UM"),
        "IndicatorRed": (0x48, "Sel"), "IndicatorAmber": (0x4a, "Sel"), "SystemSuspend": (0x4c, "OOC"),
        "ExternalPowerConnected": (0x4d, "OOC"), "PlayerIndicator": (0x4e, "NAry"), "Player1": (0x4f, "Sel"),
        "Player2": (0x50, "Sel"), "Player3": (0x51, "Sel"), "Player4": (0x52, "Sel"), "Player5": (0x53, "Sel"),
        "Player6": (0x54, "Sel"), "Player7": (0x55, "Sel"), "Player8": (0x56, "Sel"),
    },
    "telephony": {
        "Phone": (0x1, "CA"), "AnsweringMachine": (0x2, "CA"), "MessageControls": (0x3, "CL"), "Handset": (0x4, "CL"),
        "Headset": (0x5, "CL"), "TelephonyKeyPad": (0x6, "NAry"), "ProgrammableButton": (0x7, "NAry"),
        "HookSwitch": (0x20, "OOC"), "Flash": (0x21, "MC"), "Feature": (0x22, "OSC"), "Hold": (0x23, "OOC"),
        "Redial": (0x24, "OSC"), "Transfer": (0x25, "OSC"), "Drop": (0x26, "OSC"), "Park": (0x27, "OOC"),
        "ForwardCalls": (0x28, "OOC"), "AlternateFunction": (0x29, "MC"), "Line": (0x2a, "OSC"),
        "SpeakerPhone": (0x2b, "OOC"), "Conference": (0x2c, "OOC"), "RingEnable": (0x2d, "OOC"),
        "RingSelect": (0x2e, "OSC"), "PhoneMute": (0x2f, "OOC"), "CallerID": (0x30, "MC"), "SpeedDial": (0x50, "OSC"),
        "StoreNumber": (0x51, "OSC"), "RecallNumber": (0x52, "OSC"), "PhoneDirectory": (0x53, "OOC"),
        "VoiceMail": (0x70, "OOC"), "ScreenCalls": (0x71, "OOC"), "DoNotDisturb": (0x72, "OOC"),
        "Message": (0x73, "OSC"), "AnswerOnOff": (0x74, "OOC"), "InsideDialTone": (0x90, "MC"),
        "OutsideDialTone": (0x91, "MC"), "InsideRingTone": (0x92, "MC"), "OutsideRingTone": (0x93, "MC"),
        "PriorityRingTone": (0x94, "MC"), "InsideRingback": (0x95, "MC"), "PriorityRingback": (0x96, "MC"),
        "LineBusyTone": (0x97, "MC"), "ReorderTone": (0x98, "MC"), "CallWaitingTone": (0x99, "MC"),
        "ConfirmationTone1": (0x9a, "MC"), "ConfirmationTone2": (0x9b, "MC"), "TonesOff": (0x9c, "OOC"),
        "OutsideRingback": (0x9d, "MC"), "Ringer": (0x9e, "OOC"), "PhoneKey0": (0xb0, "Sel"),
        "PhoneKey1": (0xb1, "Sel"), "PhoneKey2": (0xb2, "Sel"), "PhoneKey3": (0xb3, "Sel"),
        "PhoneKey4": (0xb4, "Sel"), "PhoneKey5": (0xb5, "Sel"), "PhoneKey6": (0xb6, "Sel"),
        "PhoneKey7": (0xb7, "Sel"), "PhoneKey8": (0xb8, "Sel"), "PhoneKey9": (0xb9, "Sel"),
        "PhoneKeyStar": (0xba, "Sel"), "PhoneKeyPound": (0xbb, "Sel"), "PhoneKeyA": (0xbc, "Sel"),
        "PhoneKeyB": (0xbd, "Sel"), "PhoneKeyC": (0xbe, "Sel"), "PhoneKeyD": (0xbf, "Sel"),
    },
    "consumer": {
        "ConsumerControl": (0x1, "CA"), "NumericKeyPad": (0x2, "NAry"), "ProgrammableButtons": (0x3, "NAry"),
        "Microphone": (0x4, "CA"), "Headphone": (0x5, "CA"), "GraphicEqualizer": (0x6, "CA"), "Plus10": (0x20, "OSC"),
        "Plus100": (0x21, "OSC"), "AmPm": (0x22, "OSC"), "Power": (0x30, "OOC"), "Reset": (0x31, "OSC"),
        "Sleep": (0x32, "OSC"), "SleepAfter": (0x33, "OSC"), "SleepMode": (0x34, "RTC"),
        "Illumination": (0x35, "OOC"), "FunctionButtons": (0x36, "NAry"), "Menu": (0x40, "OOC"),
        "MenuPick": (0x41, "OSC"), "MenuUp": (0x42, "OSC"), "MenuDown": (0x43, "OSC"), "MenuLeft": (0x44, "OSC"),
        "MenuRight": (0x45, "OSC"), "MenuEscape": (0x46, "OSC"), "MenuValueIncrease": (0x47, "OSC"),
        "MenuValueDecrease": (0x48, "OSC"), "DataOnScreen": (0x60, "OOC"), "ClosedCaption": (0x61, "OOC"),
        "ClosedCaptionSelect": (0x62, "OSC"), "VcrTv": (0x63, "OOC"), "BroadcastMode": (0x64, "OSC"),
        "Snapshot": (0x65, "OSC"), "Still": (0x66, "OSC"), "PipToggle": (0x67, "OSC"), "PipSwap": (0x68, "OSC"),
        "Red": (0x69, "MC"), "Green": (0x6a, "MC"), "Blue": (0x6b, "MC"), "Yellow": (0x6c, "MC"),
        "Aspect": (0x6d, "OSC"), "ThreeDMode": (0x6e, "OSC"), "DisplayBrightnessIncrement": (0x6f, "RTC"),
        "DisplayBrightnessDecrement": (0x70, "RTC"), "DisplayBrightness": (0x71, "LC"),
        "DisplayBacklightToggle": (0x72, "OOC"), "DisplaySetBrightnesstoMinimum": (0x73, "OSC"),
        "DisplaySetBrightnesstoMaximum": (0x74, "OSC"), "DisplaySetAutoBrightness": (0x75, "OOC"),
        "Selection": (0x80, "NAry"), "AssignSelection": (0x81, "OSC"), "ModeStep": (0x82, "OSC"),
        "RecallLast": (0x83, "OSC"), "EnterChannel": (0x84, "OSC"), "OrderMovie": (0x85, "OSC"),
        "Channel": (0x86, "LC"), "MediaSelection": (0x87, "NAry"), "MediaSelectComputer": (0x88, "Sel"),
        "MediaSelectTv": (0x89, "Sel"), "MediaSelectWww": (0x8a, "Sel"), "MediaSelectDvd": (0x8b, "Sel"),
        "MediaSelectTelephone": (0x8c, "Sel"), "MediaSelectProgramGuide": (0x8d, "Sel"),
        "MediaSelectVideoPhone": (0x8e, "Sel"), "MediaSelectGames": (0x8f, "Sel"),
        "MediaSelectMessages": (0x90, "Sel"), "MediaSelectCd": (0x91, "Sel"), "MediaSelectVcr": (0x92, "Sel"),
        "MediaSelectTuner": (0x93, "Sel"), "Quit": (0x94, "OSC"), "Help": (0x95, "OOC"),
        "MediaSelectTape": (0x96, "Sel"), "MediaSelectCable": (0x97, "Sel"), "MediaSelectSatellite": (0x98, "Sel"),
        "MediaSelectSecurity": (0x99, "Sel"), "MediaSelectHome": (0x9a, "Sel"), "MediaSelectCall": (0x9b, "Sel"),
        "ChannelIncrement": (0x9c, "OSC"), "ChannelDecrement": (0x9d, "OSC"), "MediaSelectSap": (0x9e, "Sel"),
        "VcrPlus": (0xa0, "OSC"), "Once": (0xa1, "OSC"), "Daily": (0xa2, "OSC"), "Weekly": (0xa3, "OSC"),
        "Monthly": (0xa4, "OSC"), "Play": (0xb0, "OOC"), "Pause": (0xb1, "OOC"), "Record": (0xb2, "OOC"),
        "FastForward": (0xb3, "OOC"), "Rewind": (0xb4, "OOC"), "ScanNextTrack": (0xb5, "OSC"),
        "ScanPreviousTrack": (0xb6, "OSC"), "Stop": (0xb7, "OSC"), "Eject": (0xb8, "OSC"),
        "RandomPlay": (0xb9, "OOC"), "SelectDisc": (0xba, "NAry"), "EnterDisc": (0xbb, "MC"), "Repeat": (0xbc, "OSC"),
        "Tracking": (0xbd, "LC"), "TrackNormal": (0xbe, "OSC"), "SlowTracking": (0xbf, "LC"),
        "FrameForward": (0xc0, "RTC"), "FrameBack": (0xc1, "RTC"), "Mark": (0xc2, "OSC"), "ClearMark": (0xc3, "OSC"),
        "RepeatFromMark": (0xc4, "OOC"), "ReturnToMark": (0xc5, "OSC"), "SearchMarkForward": (0xc6, "OSC"),
        "SearchMarkBackwards": (0xc7, "OSC"), "CounterReset": (0xc8, "OSC"), "ShowCounter": (0xc9, "OSC"),
        "TrackingIncrement": (0xca, "RTC"), "TrackingDecrement": (0xcb, "RTC"), "StopEject": (0xcc, "OSC"),
        "PlayPause": (0xcd, "OSC"), "PlaySkip": (0xce, "OSC"), "VoiceCommand": (0xcf, "OSC"), "Volume": (0xe0, "LC"),
        "Balance": (0xe1, "LC"), "Mute": (0xe2, "OOC"), "Bass": (0xe3, "LC"), "Treble": (0xe4, "LC"),
        "BassBoost": (0xe5, "OOC"), "SurroundMode": (0xe6, "OSC"), "Loudness": (0xe7, "OOC"), "Mpx": (0xe8, "OOC"),
        "VolumeIncrement": (0xe9, "RTC"), "VolumeDecrement": (0xea, "RTC"), "SpeedSelect": (0xf0, "OSC"),
        "PlaybackSpeed": (0xf1, "NAry"), "StandardPlay": (0xf2, "Sel"), "LongPlay": (0xf3, "Sel"),
        "ExtendedPlay": (0xf4, "Sel"), "Slow": (0xf5, "OSC"), "FanEnable": (0x100, "OOC"), "FanSpeed": (0x101, "LC"),
        "LightEnable": (0x102, "OOC"), "LightIlluminationLevel": (0x103, "LC"),
        "ClimateControlEnable": (0x104, "OOC"), "RoomTemperature": (0x105, "LC"), "SecurityEnable": (0x106, "OOC"),
        "FireAlarm": (0x107, "OSC"), "PoliceAlarm": (0x108, "OSC"), "Proximity": (0x109, "LC"),
        "Motion": (0x10a, "OSC"), "DuressAlarm": (0x10b, "OSC"), "HoldupAlarm": (0x10c, "OSC"),
        "MedicalAlarm": (0x10d, "OSC"), "BalanceRight": (0x150, "RTC"), "BalanceLeft": (0x151, "RTC"),
        "BassIncrement": (0x152, "RTC"), "BassDecrement": (0x153, "RTC"), "TrebleIncrement": (0x154, "RTC"),
        "TrebleDecrement": (0x155, "RTC"), "SpeakerSystem": (0x160, "CL"), "ChannelLeft": (0x161, "CL"),
        "ChannelRight": (0x162, "CL"), "ChannelCenter": (0x163, "CL"), "ChannelFront": (0x164, "CL"),
        "ChannelCenterFront": (0x165, "CL"), "ChannelSide": (0x166, "CL"), "ChannelSurround": (0x167, "CL"),
        "ChannelLowFrequencyEnhancement": (0x168, "CL"), "ChannelTop": (0x169, "CL"), "ChannelUnknown": (0x16a, "CL"),
        "SubChannel": (0x170, "LC"), "SubChannelIncrement": (0x171, "OSC"), "SubChannelDecrement": (0x172, "OSC"),
        "AlternateAudioIncrement": (0x173, "OSC"), "AlternateAudioDecrement": (0x174, "OSC"),
        "ApplicationLaunchButtons": (0x180, "NAry"), "AlLaunchButtonConfigurationTool": (0x181, "Sel"),
        "AlProgrammableButtonConfiguration": (0x182, "Sel"), "AlConsumerControlConfiguration": (0x183, "Sel"),
        "AlWordProcessor": (0x184, "Sel"), "AlTextEditor": (0x185, "Sel"), "AlSpreadsheet": (0x186, "Sel"),
        "AlGraphicsEditor": (0x187, "Sel"), "AlPresentationApp": (0x188, "Sel"), "AlDatabaseApp": (0x189, "Sel"),
        "AlEmailReader": (0x18a, "Sel"), "AlNewsreader": (0x18b, "Sel"), "AlVoicemail": (0x18c, "Sel"),
        "AlContactsAddressBook": (0x18d, "Sel"), "AlCalendarSchedule": (0x18e, "Sel"),
        "AlTaskProjectManager": (0x18f, "Sel"), "AlLogJournalTimecard": (0x190, "Sel"),
        "AlCheckbookFinance": (0x191, "Sel"), "AlCalculator": (0x192, "Sel"), "AlAVCapturePlayback": (0x193, "Sel"),
        "AlLocalMachineBrowser": (0x194, "Sel"), "AlLanWanBrowser": (0x195, "Sel"),
        "AlInternetBrowser": (0x196, "Sel"), "AlRemoteNetworkingIspConnect": (0x197, "Sel"),
        "AlNetworkConference": (0x198, "Sel"), "AlNetworkChat": (0x199, "Sel"), "AlTelephonyDialer": (0x19a, "Sel"),
        "AlLogon": (0x19b, "Sel"), "AlLogoff": (0x19c, "Sel"), "AlLogonLogoff": (0x19d, "Sel"),
        "AlTerminalLockScreensaver": (0x19e, "Sel"), "AlControlPanel": (0x19f, "Sel"),
        "AlCommandLineProcessorRun": (0x1a0, "Sel"), "AlProcessTaskManager": (0x1a1, "Sel"),
        "AlSelectTaskApplication": (0x1a2, "Sel"), "AlNextTaskApplication": (0x1a3, "Sel"),
        "AlPreviousTaskApplication": (0x1a4, "Sel"), "AlPreemptiveHaltTaskApplication": (0x1a5, "Sel"),
        "AlIntegratedHelpCenter": (0x1a6, "Sel"), "AlDocuments": (0x1a7, "Sel"), "AlThesaurus": (0x1a8, "Sel"),
        "AlDictionary": (0x1a9, "Sel"), "AlDesktop": (0x1aa, "Sel"), "AlSpellCheck": (0x1ab, "Sel"),
        "AlGrammarCheck": (0x1ac, "Sel"), "AlWirelessStatus": (0x1ad, "Sel"), "AlKeyboardLayout": (0x1ae, "Sel"),
        "AlVirusProtection": (0x1af, "Sel"), "AlEncryption": (0x1b0, "Sel"), "AlScreenSaver": (0x1b1, "Sel"),
        "AlAlarms": (0x1b2, "Sel"), "AlClock": (0x1b3, "Sel"), "AlFileBrowser": (0x1b4, "Sel"),
        "AlPowerStatus": (0x1b5, "Sel"), "AlImageBrowser": (0x1b6, "Sel"), "AlAudioBrowser": (0x1b7, "Sel"),
        "AlMovieBrowser": (0x1b8, "Sel"), "AlDigitalRightsManager": (0x1b9, "Sel"), "AlDigitalWallet": (0x1ba, "Sel"),
        "AlInstantMessaging": (0x1bc, "Sel"), "AlOemFeaturesTipsTutorialBrowser": (0x1bd, "Sel"),
        "AlOemHelp": (0x1be, "Sel"), "AlOnlineCommunity": (0x1bf, "Sel"),
        "AlEntertainmentContentBrowser": (0x1c0, "Sel"), "AlOnlineShoppingBrowser": (0x1c1, "Sel"),
        "AlSmartcardInformationHelp": (0x1c2, "Sel"), "AlMarketMonitorFinanceBrowser": (0x1c3, "Sel"),
        "AlCustomizedCorporateNewsBrowser": (0x1c4, "Sel"), "AlOnlineActivityBrowser": (0x1c5, "Sel"),
        "AlResearchSearchBrowser": (0x1c6, "Sel"), "AlAudioPlayer": (0x1c7, "Sel"),
        "GenericGuiApplicationControls": (0x200, "NAry"), "AcNew": (0x201, "Sel"), "AcOpen": (0x202, "Sel"),
        "AcClose": (0x203, "Sel"), "AcExit": (0x204, "Sel"), "AcMaximize": (0x205, "Sel"),
        "AcMinimize": (0x206, "Sel"), "AcSave": (0x207, "Sel"), "AcPrint": (0x208, "Sel"),
        "AcProperties": (0x209, "Sel"), "AcUndo": (0x21a, "Sel"), "AcCopy": (0x21b, "Sel"), "AcCut": (0x21c, "Sel"),
        "AcPaste": (0x21d, "Sel"), "AcSelectAll": (0x21e, "Sel"), "AcFind": (0x21f, "Sel"),
        "AcFindAndReplace": (0x220, "Sel"), "AcSearch": (0x221, "Sel"), "AcGoTo": (0x222, "Sel"),
        "AcHome": (0x223, "Sel"), "AcBack": (0x224, "Sel"), "AcForward": (0x225, "Sel"), "AcStop": (0x226, "Sel"),
        "AcRefresh": (0x227, "Sel"), "AcPreviousLink": (0x228, "Sel"), "AcNextLink": (0x229, "Sel"),
        "AcBookmarks": (0x22a, "Sel"), "AcHistory": (0x22b, "Sel"), "AcSubscriptions": (0x22c, "Sel"),
        "AcZoomIn": (0x22d, "Sel"), "AcZoomOut": (0x22e, "Sel"), "AcZoom": (0x22f, "LC"),
        "AcFullScreenView": (0x230, "Sel"), "AcNormalView": (0x231, "Sel"), "AcViewToggle": (0x232, "Sel"),
        "AcScrollUp": (0x233, "Sel"), "AcScrollDown": (0x234, "Sel"), "AcScroll": (0x235, "LC"),
        "AcPanLeft": (0x236, "Sel"), "AcPanRight": (0x237, "Sel"), "AcPan": (0x238, "LC"),
        "AcNewWindow": (0x239, "Sel"), "AcTileHorizontally": (0x23a, "Sel"), "AcTileVertically": (0x23b, "Sel"),
        "AcFormat": (0x23c, "Sel"), "AcEdit": (0x23d, "Sel"), "AcBold": (0x23e, "Sel"), "AcItalics": (0x23f, "Sel"),
        "AcUnderline": (0x240, "Sel"), "AcStrikethrough": (0x241, "Sel"), "AcSubscript": (0x242, "Sel"),
        "AcSuperscript": (0x243, "Sel"), "AcAllCaps": (0x244, "Sel"), "AcRotate": (0x245, "Sel"),
        "AcResize": (0x246, "Sel"), "AcFlipHorizontal": (0x247, "Sel"), "AcFlipVertical": (0x248, "Sel"),
        "AcMirrorHorizontal": (0x249, "Sel"), "AcMirrorVertical": (0x24a, "Sel"), "AcFontSelect": (0x24b, "Sel"),
        "AcFontColor": (0x24c, "Sel"), "AcFontSize": (0x24d, "Sel"), "AcJustifyLeft": (0x24e, "Sel"),
        "AcJustifyCenterH": (0x24f, "Sel"), "AcJustifyRight": (0x250, "Sel"), "AcJustifyBlockH": (0x251, "Sel"),
        "AcJustifyTop": (0x252, "Sel"), "AcJustifyCenterV": (0x253, "Sel"), "AcJustifyBottom": (0x254, "Sel"),
        "AcJustifyBlockV": (0x255, "Sel"), "AcIndentDecrease": (0x256, "Sel"), "AcIndentIncrease": (0x257, "Sel"),
        "AcNumberedList": (0x258, "Sel"), "AcRestartNumbering": (0x259, "Sel"), "AcBulletedList": (0x25a, "Sel"),
        "AcPromote": (0x25b, "Sel"), "AcDemote": (0x25c, "Sel"), "AcYes": (0x25d, "Sel"), "AcNo": (0x25e, "Sel"),
        "AcCancel": (0x25f, "Sel"), "AcCatalog": (0x260, "Sel"), "AcBuyCheckout": (0x261, "Sel"),
        "AcAddToCart": (0x262, "Sel"), "AcExpand": (0x263, "Sel"), "AcExpandAll": (0x264, "Sel"),
        "AcCollapse": (0x265, "Sel"), "AcCollapseAll": (0x266, "Sel"), "AcPrintPreview": (0x267, "Sel"),
        "AcPasteSpecial": (0x268, "Sel"), "AcInsertMode": (0x269, "Sel"), "AcDelete": (0x26a, "Sel"),
        "AcLock": (0x26b, "Sel"), "AcUnlock": (0x26c, "Sel"), "AcProtect": (0x26d, "Sel"),
        "AcUnprotect": (0x26e, "Sel"), "AcAttachComment": (0x26f, "Sel"), "AcDeleteComment": (0x270, "Sel"),
        "AcViewComment": (0x271, "Sel"), "AcSelectWord": (0x272, "Sel"), "AcSelectSentence": (0x273, "Sel"),
        "AcSelectParagraph": (0x274, "Sel"), "AcSelectColumn": (0x275, "Sel"), "AcSelectRow": (0x276, "Sel"),
        "AcSelectTable": (0x277, "Sel"), "AcSelectObject": (0x278, "Sel"), "AcRedoRepeat": (0x279, "Sel"),
        "AcSort": (0x27a, "Sel"), "AcSortAscending": (0x27b, "Sel"), "AcSortDescending": (0x27c, "Sel"),
        "AcFilter": (0x27d, "Sel"), "AcSetClock": (0x27e, "Sel"), "AcViewClock": (0x27f, "Sel"),
        "AcSelectTimeZone": (0x280, "Sel"), "AcEditTimeZones": (0x281, "Sel"), "AcSetAlarm": (0x282, "Sel"),
        "AcClearAlarm": (0x283, "Sel"), "AcSnoozeAlarm": (0x284, "Sel"), "AcResetAlarm": (0x285, "Sel"),
        "AcSynchronize": (0x286, "Sel"), "AcSendReceive": (0x287, "Sel"), "AcSendTo": (0x288, "Sel"),
        "AcReply": (0x289, "Sel"), "AcReplyAll": (0x28a, "Sel"), "AcForwardMsg": (0x28b, "Sel"),
        "AcSend": (0x28c, "Sel"), "AcAttachFile": (0x28d, "Sel"), "AcUpload": (0x28e, "Sel"),
        "AcDownload": (0x28f, "Sel"), "AcSetBorders": (0x290, "Sel"), "AcInsertRow": (0x291, "Sel"),
        "AcInsertColumn": (0x292, "Sel"), "AcInsertFile": (0x293, "Sel"), "AcInsertPicture": (0x294, "Sel"),
        "AcInsertObject": (0x295, "Sel"), "AcInsertSymbol": (0x296, "Sel"), "AcSaveAndClose": (0x297, "Sel"),
        "AcRename": (0x298, "Sel"), "AcMerge": (0x299, "Sel"), "AcSplit": (0x29a, "Sel"),
        "AcDisributeHorizontally": (0x29b, "Sel"), "AcDistributeVertically": (0x29c, "Sel"),
        "ExtendedKeyboardAttributesCollection": (0x2c0, "CL"), "KeyboardFormFactor": (0x2c1, "SV"),
        "KeyboardKeyType": (0x2c2, "SV"), "KeyboardPhysicalLayout": (0x2c3, "SV"),
        "VendorSpecificKeyboardPhysicalLayout": (0x2c4, "SV"), "KeyboardIETFLanguageTagIndex": (0x2c5, "SV"),
        "ImplementedKeyboardInputAssistControls": (0x2c6, "SV"), "KeyboardInputAssistPrevious": (0x2c7, "Sel"),
        "KeyboardInputAssistNext": (0x2c8, "Sel"), "KeyboardInputAssistPreviousGroup": (0x2c9, "Sel"),
        "KeyboardInputAssistNextGroup": (0x2ca, "Sel"), "KeyboardInputAssistAccept": (0x2cb, "Sel"),
        "KeyboardInputAssistCancel": (0x2cc, "Sel"),
    },
    "digitizers": {
        "Digitizer": (0x1, "CA"), "Pen": (0x2, "CA"), "LightPen": (0x3, "CA"), "TouchScreen": (0x4, "CA"),
        "TouchPad": (0x5, "CA"), "WhiteBoard": (0x6, "CA"), "CoordinateMeasuringMachine": (0x7, "CA"),
        "ThreeDDigitizer": (0x8, "CA"), "StereoPlotter": (0x9, "CA"), "ArticulatedArm": (0xa, "CA"),
        "Armature": (0xb, "CA"), "MultiplePointDigitizer": (0xc, "CA"), "FreeSpaceWand": (0xd, "CA"),
        "Deviceconfiguration": (0xe, "CA"), "Stylus": (0x20, "CL"), "Puck": (0x21, "CL"), "Finger": (0x22, "CL"),
        "Devicesettings": (0x23, "CL"), "TipPressure": (0x30, "DV"), "BarrelPressure": (0x31, "DV"),
        "InRange": (0x32, "MC"), "Touch": (0x33, "MC"), "Untouch": (0x34, "OSC"), "Tap": (0x35, "OSC"),
        "Quality": (0x36, "DV"), "DataValid": (0x37, "MC"), "TransducerIndex": (0x38, "DV"),
        "TabletFunctionKeys": (0x39, "CL"), "ProgramChangeKeys": (0x3a, "CL"), "BatteryStrength": (0x3b, "DV"),
        "Invert": (0x3c, "MC"), "XTilt": (0x3d, "DV"), "YTilt": (0x3e, "DV"), "Azimuth": (0x3f, "DV"),
        "Altitude": (0x40, "DV"), "Twist": (0x41, "DV"), "TipSwitch": (0x42, "MC"),
        "SecondaryTipSwitch": (0x43, "MC"), "BarrelSwitch": (0x44, "MC"), "Eraser": (0x45, "MC"),
        "TabletPick": (0x46, "MC"), "TouchValid": (0x47, "MC"), "Width": (0x48, "DV"), "Height": (0x49, "DV"),
        "Contactidentifier": (0x51, "DV"), "Devicemode": (0x52, "DV"), "Deviceidentifier": (0x53, "DV"),
        "Contactcount": (0x54, "DV"), "Contactcountmaximum": (0x55, "DV"), "SecondaryBarrelSwitch": (0x5a, "MC"),
        "TransducerSerialNumber": (0x5b, "SV"), "PreferredColor": (0x5c, "DV"),
    },
    "pid": {
        "PhysicalInterfaceDevice": (0x1, "CA"), "Normal": (0x20, "DV"), "SetEffectReport": (0x21, "CL"),
        "EffectBlockIndex": (0x22, "DV"), "ParameterBlockOffset": (0x23, "DV"), "ROMFlag": (0x24, "DF"),
        "EffectType": (0x25, "NAry"), "ETConstantForce": (0x26, "Sel"), "ETRamp": (0x27, "Sel"),
        "ETCustomForceData": (0x28, "Sel"), "ETSquare": (0x30, "Sel"), "ETSine": (0x31, "Sel"),
        "ETTriangle": (0x32, "Sel"), "ETSawtoothUp": (0x33, "Sel"), "ETSawtoothDown": (0x34, "Sel"),
        "ETSpring": (0x40, "Sel"), "ETDamper": (0x41, "Sel"), "ETInertia": (0x42, "Sel"), "ETFriction": (0x43, "Sel"),
        "Duration": (0x50, "DV"), "SamplePeriod": (0x51, "DV"), "Gain": (0x52, "DV"), "TriggerButton": (0x53, "DV"),
        "TriggerRepeatInterval": (0x54, "DV"), "AxesEnable": (0x55, "US"), "DirectionEnable": (0x56, "DF"),
        "Direction": (0x57, "CL"), "TypeSpecificBlockOffset": (0x58, "CL"), "BlockType": (0x59, "NAry"),
        "SetEnvelopeReport": (0x5a, "CL"), "AttackLevel": (0x5b, "DV"), "AttackTime": (0x5c, "DV"),
        "FadeLevel": (0x5d, "DV"), "FadeTime": (0x5e, "DV"), "SetConditionReport": (0x5f, "CL"),
        "CPOffset": (0x60, "DV"), "PositiveCoefficient": (0x61, "DV"), "NegativeCoefficient": (0x62, "DV"),
        "PositiveSaturation": (0x63, "DV"), "NegativeSaturation": (0x64, "DV"), "DeadBand": (0x65, "DV"),
        "DownloadForceSample": (0x66, "CL"), "IsochCustomForceEnable": (0x67, "CL"),
        "CustomForceDataReport": (0x68, "CL"), "CustomForceData": (0x69, "DV"),
        "CustomForceVendorDefinedData": (0x6a, "DV"), "SetCustomForceReport": (0x6b, "CL"),
        "CustomForceDataOffset": (0x6c, "DV"), "SampleCount": (0x6d, "DV"), "SetPeriodicReport": (0x6e, "CL"),
        "Offset": (0x6f, "DV"), "Magnitude": (0x70, "DV"), "Phase": (0x71, "DV"), "Period": (0x72, "DV"),
        "SetConstantForceReport": (0x73, "CL"), "SetRampForceReport": (0x74, "CL"), "RampStart": (0x75, "DV"),
        "RampEnd": (0x76, "DV"), "EffectOperationReport": (0x77, "CL"), "EffectOperation": (0x78, "NAry"),
        "OpEffectStart": (0x79, "Sel"), "OpEffectStartSolo": (0x7a, "Sel"), "OpEffectStop": (0x7b, "Sel"),
        "LoopCount": (0x7c, "DV"), "DeviceGainReport": (0x7d, "CL"), "DeviceGain": (0x7e, "DV"),
        "PoolReport": (0x7f, "CL"), "RAMPoolSize": (0x80, "DV"), "ROMPoolSize": (0x81, "SV"),
        "ROMEffectBlockCount": (0x82, "SV"), "SimultaneousEffectsMax": (0x83, "SV"), "PoolAlignment": (0x84, "SV"),
        "PoolMoveReport": (0x85, "CL"), "MoveSource": (0x86, "DV"), "MoveDestination": (0x87, "DV"),
        "MoveLength": (0x88, "DV"), "BlockLoadReport": (0x89, "CL"), "BlockLoadStatus": (0x8b, "NAry"),
        "BlockLoadSuccess": (0x8c, "Sel"), "BlockLoadFull": (0x8d, "Sel"), "BlockLoadError": (0x8e, "Sel"),
        "BlockHandle": (0x8f, "DV"), "BlockFreeReport": (0x90, "CL"), "TypeSpecificBlockHandle": (0x91, "DV"),
        "StateReport": (0x92, "CL"), "EffectPlaying": (0x94, "DF"), "DeviceControlReport": (0x95, "CL"),
        "DeviceControl": (0x96, "NAry"), "DCEnableActuators": (0x97, "Sel"), "DCDisableActuators": (0x98, "Sel"),
        "DCStopAllEffects": (0x99, "Sel"), "DCDeviceReset": (0x9a, "Sel"), "DCDevicePause": (0x9b, "Sel"),
        "DCDeviceContinue": (0x9c, "Sel"), "DevicePaused": (0x9f, "DF"), "ActuatorsEnabled": (0xa0, "DF"),
        "SafetySwitch": (0xa4, "DF"), "ActuatorOverrideSwitch": (0xa5, "DF"), "ActuatorPower": (0xa6, "OOC"),
        "StartDelay": (0xa7, "DV"), "ParameterBlockSize": (0xa8, "CL"), "DeviceManagedPool": (0xa9, "SF"),
        "SharedParameterBlocks": (0xaa, "SF"), "CreateNewEffectReport": (0xab, "CL"),
        "RAMPoolAvailable": (0xac, "DV"),
    },
    "sensors": {
        "Sensor": (0x1,), "Biometric": (0x10,), "BiometricHumanPresence": (0x11,), "BiometricHumanProximity": (0x12,),
        "BiometricHumanTouch": (0x13,), "Electrical": (0x20,), "ElectricalCapacitance": (0x21,),
        "ElectricalCurrent": (0x22,), "ElectricalPower": (0x23,), "ElectricalInductance": (0x24,),
        "ElectricalResistance": (0x25,), "ElectricalVoltage": (0x26,), "ElectricalPotentiometer": (0x27,),
        "ElectricalFrequency": (0x28,), "ElectricalPeriod": (0x29,), "Environmental": (0x30,),
        "EnvironmentalAtmosphericPressure": (0x31,), "EnvironmentalHumidity": (0x32,),
        "EnvironmentalTemperature": (0x33,), "EnvironmentalWindDirection": (0x34,), "EnvironmentalWindSpeed": (0x35,),
        "Light": (0x40,), "LightAmbientLight": (0x41,), "LightConsumerInfrared": (0x42,), "Location": (0x50,),
        "LocationBroadcast": (0x51,), "LocationDeadReckoning": (0x52,), "LocationGPS": (0x53,),
        "LocationLookup": (0x54,), "LocationOther": (0x55,), "LocationStatic": (0x56,),
        "LocationTriangulation": (0x57,), "Mechanical": (0x60,), "MechanicalBooleanSwitch": (0x61,),
        "MechanicalBooleanSwitchArray": (0x62,), "MechanicalMultivalueSwitch": (0x63,), "MechanicalForce": (0x64,),
        "MechanicalPressure": (0x65,), "MechanicalStrain": (0x66,), "MechanicalWeight": (0x67,),
        "MechanicalHapticVibrator": (0x68,), "MechanicalHallEffectSwitch": (0x69,), "Motion": (0x70,),
        "MotionAccelerometer1D": (0x71,), "MotionAccelerometer2D": (0x72,), "MotionAccelerometer3D": (0x73,),
        "MotionGyrometer1D": (0x74,), "MotionGyrometer2D": (0x75,), "MotionGyrometer3D": (0x76,),
        "MotionMotionDetector": (0x77,), "MotionSpeedometer": (0x78,), "MotionAccelerometer": (0x79,),
        "MotionGyrometer": (0x7a,), "Orientation": (0x80,), "OrientationCompass1D": (0x81,),
        "OrientationCompass2D": (0x82,), "OrientationCompass3D": (0x83,), "OrientationInclinometer1D": (0x84,),
        "OrientationInclinometer2D": (0x85,), "OrientationInclinometer3D": (0x86,), "OrientationDistance1D": (0x87,),
        "OrientationDistance2D": (0x88,), "OrientationDistance3D": (0x89,), "OrientationDeviceOrientation": (0x8a,),
        "OrientationCompass": (0x8b,), "OrientationInclinometer": (0x8c,), "OrientationDistance": (0x8d,),
        "Scanner": (0x90,), "ScannerBarcode": (0x91,), "ScannerRFID": (0x92,), "ScannerNFC": (0x93,), "Time": (0xa0,),
        "TimeAlarmTimer": (0xa1,), "TimeRealTimeClock": (0xa2,), "Other": (0xe0,), "OtherCustom": (0xe1,),
        "OtherGeneric": (0xe2,), "OtherGenericEnumerator": (0xe3,), "Event": (0x200,), "EventSensorState": (0x201,),
        "EventSensorEvent": (0x202,), "Property": (0x300,), "PropertyFriendlyName": (0x301,),
        "PropertyPersistentUniqueID": (0x302,), "PropertySensorStatus": (0x303,),
        "PropertyMinimumReportInterval": (0x304,), "PropertySensorManufacturer": (0x305,),
        "PropertySensorModel": (0x306,), "PropertySensorSerialNumber": (0x307,),
        "PropertySensorDescription": (0x308,), "PropertySensorConnectionType": (0x309,),
        "PropertySensorDevicePath": (0x30a,), "PropertyHardwareRevision": (0x30b,),
        "PropertyFirmwareVersion": (0x30c,), "PropertyReleaseDate": (0x30d,), "PropertyReportInterval": (0x30e,),
        "PropertyChangeSensitivityAbsolute": (0x30f,), "PropertyChangeSensitivityPercentofRange": (0x310,),
        "PropertyChangeSensitivityPercentRelative": (0x311,), "PropertyAccuracy": (0x312,),
        "PropertyResolution": (0x313,), "PropertyMaximum": (0x314,), "PropertyMinimum": (0x315,),
        "PropertyReportingState": (0x316,), "PropertySamplingRate": (0x317,), "PropertyResponseCurve": (0x318,),
        "PropertyPowerState": (0x319,), "DataFieldLocation": (0x400,), "DataFieldLocationReserved": (0x401,),
        "DataFieldAltitudeAntennaSeaLevel": (0x402,), "DataFieldDifferentialReferenceStationID": (0x403,),
        "DataFieldAltitudeEllipsoidError": (0x404,), "DataFieldAltitudeEllipsoid": (0x405,),
        "DataFieldAltitudeSeaLevelError": (0x406,), "DataFieldAltitudeSeaLevel": (0x407,),
        "DataFieldDifferentialGPSDataAge": (0x408,), "DataFieldErrorRadius": (0x409,),
        "DataFieldFixQuality": (0x40a,), "DataFieldFixType": (0x40b,), "DataFieldGeoidalSeparation": (0x40c,),
        "DataFieldGPSOperationMode": (0x40d,), "DataFieldGPSSelectionMode": (0x40e,),
        "SensorStateUndefined": (0x800,), "SensorStateReady": (0x801,), "SensorStateNotAvailable": (0x802,),
        "SensorStateNoData": (0x803,), "SensorStateInitializing": (0x804,), "SensorStateAccessDenied": (0x805,),
        "SensorStateError": (0x806,), "SensorEventUnknown": (0x810,), "SensorEventStateChanged": (0x811,),
        "SensorEventPropertyChanged": (0x812,), "SensorEventDataUpdated": (0x813,),
        "SensorEventPollResponse": (0x814,), "SensorEventChangeSensitivity": (0x815,),
        "SensorEventRangeMaximumReached": (0x816,), "SensorEventRangeMinimumReached": (0x817,),
        "SensorEventHighThresholdCrossUpward": (0x818,), "SensorEventHighThresholdCrossDownward": (0x819,),
        "SensorEventLowThresholdCrossUpward": (0x81a,), "SensorEventLowThresholdCrossDownward": (0x81b,),
        "SensorEventZeroThresholdCrossUpward": (0x81c,), "SensorEventZeroThresholdCrossDownward": (0x81d,),
        "SensorEventPeriodExceeded": (0x81e,), "SensorEventFrequencyExceeded": (0x81f,),
        "SensorEventComplexTrigger": (0x820,), "ConnectionTypePCIntegrated": (0x830,),
        "ConnectionTypePCAttached": (0x831,), "ConnectionTypePCExternal": (0x832,),
        "ReportingStateReportNoEvents": (0x840,), "ReportingStateReportAllEvents": (0x841,),
        "ReportingStateReportThresholdEvents": (0x842,), "ReportingStateWakeOnNoEvents": (0x843,),
        "ReportingStateWakeOnAllEvents": (0x844,), "ReportingStateWakeOnThresholdEvents": (0x845,),
        "PowerStateUndefined": (0x850,), "PowerStateD0FullPower": (0x851,), "PowerStateD1LowPower": (0x852,),
        "PowerStateD2StandbyPowerwithWakeup": (0x853,), "PowerStateD3SleepwithWakeup": (0x854,),
        "PowerStateD4PowerOff": (0x855,), "FixQualityNoFix": (0x870,), "FixQualityGPS": (0x871,),
        "FixQualityDGPS": (0x872,), "FixTypeNoFix": (0x880,), "FixTypeGPSSPSModeFixValid": (0x881,),
        "FixTypeDGPSSPSModeFixValid": (0x882,), "FixTypeGPSPPSModeFixValid": (0x883,),
        "FixTypeRealTimeKinematic": (0x884,), "FixTypeFloatRTK": (0x885,), "FixTypeEstimated": (0x886,),
        "FixTypeManualInputMode": (0x887,), "FixTypeSimulatorMode": (0x888,), "GPSOperationModeManual": (0x890,),
        "GPSOperationModeAutomatic": (0x891,), "GPSSelectionModeAutonomous": (0x8a0,),
        "GPSSelectionModeDGPS": (0x8a1,), "GPSSelectionModeEstimated": (0x8a2,),
        "GPSSelectionModeManualInput": (0x8a3,),
    },
    "lighting": {
        "LampArray": (0x1,), "LampArrayAttributesReport": (0x2,), "LampCount": (0x3,),
        "BoundingBoxWidthInMicrometers": (0x4,), "BoundingBoxHeightInMicrometers": (0x5,),
        "BoundingBoxDepthInMicrometers": (0x6,), "LampArrayKind": (0x7,), "MinUpdateIntervalInMicroseconds": (0x8,),
        "LampAttributesRequestReport": (0x20,), "LampId": (0x21,), "LampAttributesResponseReport": (0x22,),
        "PositionXInMicrometers": (0x23,), "PositionYInMicrometers": (0x24,), "PositionZInMicrometers": (0x25,),
        "LampPurposes": (0x26,), "UpdateLatencyInMicroseconds": (0x27,), "RedLevelCount": (0x28,),
        "GreenLevelCount": (0x29,), "BlueLevelCount": (0x2a,), "IntensityLevelCount": (0x2b,),
        "IsProgrammable": (0x2c,), "InputBinding": (0x2d,), "LampMultiUpdateReport": (0x50,),
        "RedUpdateChannel": (0x51,), "GreenUpdateChannel": (0x52,), "BlueUpdateChannel": (0x53,),
        "IntensityUpdateChannel": (0x54,), "LampUpdateFlags": (0x55,), "LampRangeUpdateReport": (0x60,),
        "LampIdStart": (0x61,), "LampIdEnd": (0x62,), "LampArrayControlReport": (0x70,), "AutonomousMode": (0x71,),
    },
    "camera": {
        "Autofocus": (0x20, "OSC"), "Shutter": (0x21, "OSC"),
    },
}

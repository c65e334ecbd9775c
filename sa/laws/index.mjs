import * as states from './states.mjs'
import * as commands from './commands.mjs'
import * as keyboard from './keyboard.mjs'
import * as services from './services.mjs'
import * as system from './system.mjs'
import * as types from './types.mjs'
import * as preferences from './preferences.mjs'
const all = { ...states, ...commands, ...keyboard, ...preferences, ...services, ...system, ...types }
export const LAWS = Object.fromEntries(Object.entries(all).filter(([k]) => /^[A-Z]\d\d$/.test(k)))

#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
S='multirotor_simulator/multirotor_simulator.hpp'; D='multirotor_simulator/multirotor_dynamic_model/dynamics.hpp'
M='multirotor_simulator/multirotor_dynamic_model/model.hpp'; ST='multirotor_simulator/multirotor_dynamic_model/common/state.hpp'
U='multirotor_simulator/multirotor_dynamic_model/common/utils.hpp'
C='multirotor_simulator/multirotor_controllers/multirotor_controllers.hpp'; CD='multirotor_simulator/multirotor_controllers/controllers/'
I='multirotor_simulator/imu_simulator/imu.hpp'; O='multirotor_simulator/imu_simulator/inertial_odometry.hpp'
P='pid_controller/include/pid_controller/pid.hpp'; P1='pid_controller/include/pid_controller/pid_1d.hpp'
L=[]
def prop(id,title,statement,over,qtext,why,files,mech,obs,state=()):
    assert len(title)<=80,(id,len(title))
    L.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
H,IN,CF=['histories'],['inputs'],['configurations']
prop('C01','A disarmed vehicle never gets a motor command',
 'While the vehicle is disarmed, every controller update leaves the motor command exactly zero on every rotor, whatever mode and references are selected. Disarming zeroes the command at once, and a non-zero command can only come from a controller update made after arming again.',
 H+IN,'every interleaving of arm, disarm, mode, reference, parameter, controller and dynamics calls, any number of rotors',
 'The tests disarm once from one mode and look at one value; they sample no interleaving of arm/disarm with modes, references and updates.',
 [S],[('early return with zero actuation when not armed',S+' update_controller'),('disarm zeroes the actuation',S+' disarm')],
 ['get_armed','get_actuation_motors_angular_velocity'],[('armed','vehicle armed flag',S),('actuation','motor command sent to the dynamics',S)])
prop('C02','An armed update applies exactly the selected mode\'s control law',
 'On every controller update of an armed vehicle the motor command is the one produced by the control law of the currently selected mode from the current vehicle state, the most recent references of that mode and the given time step. Hover behaves exactly as position control, motor mode passes the motor references through, and references belonging to other modes have no influence.',
 H+IN+CF,'all six modes, both yaw modes, every order of mode changes, reference settings, state changes and updates',
 'The tests check that a handful of fixed flights end near a target; a wrong argument, a stale reference or a wrongly wired mode that still roughly flies passes.',
 [S,C],[('dispatch on the control mode',S+' update_controller'),('control laws',C)],['get_actuation_motors_angular_velocity','get_reference_*'],
 [('control_mode','selected mode pair',S),('references','latest references',S)])
prop('C03','Switching control mode latches a hold at the current pose',
 'Selecting a control mode or yaw mode different from the active pair makes the current position and current heading the position and yaw references and sets the velocity, acceleration, thrust and angular-rate references to zero. Selecting the pair that is already active changes nothing at all.',
 H+IN,'every state (including headings near plus or minus pi and tilted attitudes) and every pair of consecutive modes, both yaw modes',
 'Tests switch modes on a vehicle at the origin with zero yaw and zero references, where a missing latch is invisible.',
 [S,ST],[('reference latch',S+' set_control_mode'),('heading from quaternion',ST+' quaternion_to_Euler')],['get_reference_*','get_control_mode','get_yaw_control_mode'])
prop('C04','Each command changes only the settings it names',
 'Each reference setter stores the given value in its own reference and alters no other reference, mode, armed flag, command or vehicle state. Arming sets the thrust reference to 9.81, the angular-rate references to zero and the altitude reference to the floor height and changes nothing else besides the armed flag; enabling or disabling the floor changes only the floor settings and cancels any pending external force.',
 H+IN,'every command in every reachable configuration, with arbitrary earlier references',
 'Tests set one reference on a fresh object and read back that one value; interference between settings needs histories.',
 [S],[('reference setters, arm, enable_floor_collision',S)],['all getters of the simulator'])
prop('C05','Yaw-rate control re-aims from the current heading at every update',
 'In yaw-rate mode each armed update sets the yaw reference to the current heading plus the commanded rate divided by the yaw attitude gain, or to the current heading when that gain is zero, before the control law runs. In yaw-angle mode, or disarmed, an update never modifies the yaw reference.',
 H+IN+CF,'all headings, rates, gains, modes and histories',
 'Tests fly one constant rate from zero heading.',
 [S,C],[('yaw reference update',S+' update_yaw_reference_with_yaw_rate'),('rate to angle',C+' yaw_rate_to_angle')],['get_reference_yaw','get_actuation_motors_angular_velocity'])
prop('C06','The vehicle is never below an enabled floor after a step',
 'After every dynamics update with floor collision enabled, the vehicle altitude is at or above the configured floor height, whatever the initial state, floor height, forces and time step. With floor collision disabled the floor never influences the motion.',
 H+IN+CF,'all states, floor heights (negative, zero, positive), step sizes and enable/disable histories',
 'Tests drop the vehicle on a floor at zero height only.',
 [S],[('floor clamp',S+' update_dynamics')],['get_state','get_floor_height','get_floor_collision_enabled'],[('floor','enable flag and height',S)])
prop('C07','Floor contact stops the vehicle and re-zeroes the sensors',
 'When a dynamics update ends in floor contact, the altitude becomes exactly the floor height, linear and angular velocity and acceleration become zero, and horizontal position, orientation, net force and torque and the motor states are kept. At the same time the inertial sensor bias and measurement and the odometry are reset with the odometry orientation set to the vehicle orientation, and the next dynamics update runs without process noise; a step without contact triggers none of this.',
 H+IN+CF,'all approach states, floor heights and histories, with and without noise',
 'Tests look only at the final altitude after thousands of steps.',
 [S,I,O],[('contact branch',S+' update_dynamics')],['get_state','get_odometry','get_imu_measurement','get_bias','get_stochastic_force'],[('floor_collision','noise suppression after contact',S)])
prop('C08','Translation obeys Newton\'s law with all forces accounted for',
 'Every dynamics step reports as net force the sum of motor thrust rotated to the world frame, weight (mass times gravity), quadratic drag opposing the velocity, the stochastic force and the external force, and as acceleration that force divided by mass. Velocity advances by acceleration times the step and position by the velocity at the start of the step.',
 H+IN+CF,'all masses, gravities, drag coefficients, rotor layouts (tilted included), states, commands and steps',
 'Tests use mass 1, identity attitude and isolated terms, so a wrong frame, sign or missing mass factor cancels out.',
 [D,M],[('force sum and explicit Euler',D+' process_euler_explicit'),('drag and thrust',M)],['get_state'],[('state','kinematics and net force',ST)])
prop('C09','Rotation obeys Euler\'s law and quaternion kinematics',
 'Every dynamics step reports as net torque the motor torque (thrust lever arm, propeller drag and rotor acceleration), the aerodynamic moment opposing rotation and the process perturbation, minus the gyroscopic term, and as angular acceleration the inverse inertia applied to it. Body rates advance by that acceleration times the step and the orientation by the body rates at the start of the step.',
 H+IN+CF,'all inertia matrices (non-diagonal included), rotor layouts, aerodynamic coefficients, states, commands and steps',
 'Tests use diagonal inertia and one axis at a time.',
 [D,M,U],[('torque sum and explicit Euler',D+' process_euler_explicit'),('quaternion derivative',U)],['get_state'])
prop('C10','A step advances exactly its duration, and bad steps are rejected',
 'A dynamics update with any positive duration advances the vehicle by exactly that duration, internally integrating in equal substeps no longer than 10 ms that all use the given command and external force. A zero or negative duration is rejected with an invalid-argument error and leaves the simulator, state and pending forces completely unchanged.',
 H+IN,'all durations from microseconds to seconds including multiples and non-multiples of 10 ms, zero and negative, from any state',
 'Tests use only 1 ms steps and exact multiples of 10 ms.',
 [D,S],[('substepping',D+' process_euler_explicit'),('argument check',S+' update_dynamics')],['get_state','exception type'])
prop('C11','Motors follow a first-order lag and stay inside their speed limits',
 'Each motor accelerates at (command limited to its own speed range minus current speed) divided by its own time constant, and its speed advances by that acceleration times the step. After every step every motor speed lies within that motor\'s own minimum and maximum, whatever the command, initial speed and step.',
 H+IN+CF,'all commands (far outside the range, negative, per-rotor different limits and time constants), steps longer than the time constant',
 'Tests use identical motors and in-range commands.',
 [D],[('command and speed clamping',D+' clamp_motors_angular_velocity'),('first-order lag',D+' get_motors_angular_velocity_derivative')],['get_state'])
prop('C12','Orientation stays a unit quaternion and the state stays finite',
 'From any finite state of physically plausible magnitude with unit orientation and valid parameters, after any dynamics or odometry update the reported orientations have unit norm and every reported state, odometry and command value is finite. Long histories do not accumulate norm drift.',
 H+IN+CF,'all histories of updates with finite inputs, high body rates and long runs',
 'Tests never check the norm after many steps or at high rates.',
 [D,O,U],[('normalisation after integration',D+' process_euler_explicit'),('normalisation',O+' get_quaternion_integrate')],['get_state','get_odometry'])
prop('C13','The mixer is derived exactly from the rotor geometry',
 'The force, torque and rotor-inertia mixers of a model map motor speeds (signed squares) and accelerations to the body force and torque given by each rotor\'s own pose, spin direction, thrust and torque coefficients and inertia. The preset X, plus and hexacopter layouts place rotors at the documented positions with alternating spin, and the quadrotor mixer inverse is the true inverse of the thrust-and-torque mixer.',
 IN+CF,'all rotor counts, positions, tilts, spin patterns and coefficients, and all preset dimensions',
 'Tests compare a few presets with one set of numbers and untilted rotors.',
 [M,CD+'indi_controller.hpp'],[('mixer computation',M+' compute_mixer_matrix'),('presets',M+' create_*_config'),('inverse',CD+'indi_controller.hpp compute_quadrotor_mixer_matrix_inverse')],['get_mixer_*','get_force_*','get_torque_by_motors','get_motors'])
prop('C14','Model parameter updates are validated and all-or-nothing',
 'A parameter update with a negative mass, drag, motor time constant, inertia or coefficient, an inertia or aerodynamic matrix with negative determinant, or a motor whose maximum speed is below its minimum is rejected and leaves every parameter and derived mixer as before. An accepted update replaces all parameters together and every derived quantity and getter reflects exactly the new values.',
 H+IN,'every sequence of valid and invalid updates, each single invalid field on each rotor',
 'Tests try a few invalid fields on fresh models and do not check that the previous parameters survive.',
 [M],[('validation before assignment',M+' update_params, check_params')],['get_params','get_mass','get_mixer_*','get_motors'])
prop('C15','Process noise is seeded, white, correctly scaled and applied once',
 'The stochastic force and moment are independent zero-mean normal samples whose standard deviation is the square root of the respective auto-correlation over the step, drawn anew for every step from a sequence fixed by the seed. The force perturbs only the translation and the moment only the rotation; with zero auto-correlation or noise disabled they are exactly zero.',
 H+IN+CF,'all seeds, auto-correlations, steps and histories',
 'Tests check only that noise is non-zero.',
 [M,D],[('noise sampling',M+' set_stochastic_noise'),('use of the samples',D+' process_euler_explicit')],['get_stochastic_force','get_stochastic_moment','get_state'])
prop('C16','The PID output is the P, I and filtered D law over any history',
 'After any history of calls the PID output before limiting equals gain times error, plus integral gain times the accumulated error-time, plus derivative gain times either the low-pass filtered error rate or the supplied error rate, per axis. The reported errors and contributions are those of the last call.',
 H+IN+CF,'all dimensions, gains, filter constants, error and step sequences, mixing both forms of the call',
 'Tests check a few steps with unit gains and a filter constant of one.',
 [P,P1],[('compute_control',P),('compute_control',P1)],['compute_control result','get_*_contribution'],[('integral, filter, last error','controller memory',P)])
prop('C17','PID outputs respect their limits, keeping direction in proportional mode',
 'With valid output limits every axis of the output lies within its own limits: per-axis limiting changes only offending axes, and proportional limiting (limits on both sides of zero) scales the whole vector by the largest common factor not above one that satisfies all limits. Invalid limits (upper not above lower) or all-zero limits disable limiting, after which the output is the unlimited law.',
 H+IN+CF,'all limits, directions, dimensions and sequences of limit changes',
 'Tests use symmetric limits and one offending axis.',
 [P,P1],[('saturate_output, set_output_saturation',P),('saturate_output',P1)],['compute_control result','get_output_saturation_flag','get_saturation_limits'])
prop('C18','The PID integral is bounded and unwinds on error reversal',
 'With anti-windup limits set, the accumulated integral of every axis never exceeds its own limit in magnitude at any time, and with all limits zero it is unbounded. With integral reset enabled, an axis whose accumulated integral has reached its limit restarts from zero when the error sign opposes it; other axes and the unsaturated case are unaffected.',
 H+IN+CF,'all error histories with sign changes, limits per axis, both PID classes',
 'Tests never drive the integrator into saturation and reverse it.',
 [P,P1],[('anti-windup and reset',P+' compute_integral_contribution')],['get_integral_error_contribution'])
prop('C19','A reset controller behaves as a fresh one',
 'After a reset the PID forgets its integral, filter and previous error, so that from then on it produces exactly the outputs of a newly built PID with the same parameters, with no derivative kick on the first call. Resetting the whole vehicle controller does this for all of its loops, and keeps every parameter.',
 H+IN+CF,'any history before the reset and any history after it',
 'Tests call reset without comparing later behaviour with a fresh controller.',
 [P,P1,C],[('reset_controller and first-run initialisation',P),('reset of all loops',C)],['compute_control result after reset'])
prop('C20','The scalar PID equals every axis of the vector PID',
 'For the same parameters and call history, the scalar PID returns exactly what each axis of the vector PID with per-axis limiting returns, including limits, anti-windup, integral reset, filtering and reset. Axes of a vector PID with per-axis limiting never influence each other.',
 H+IN+CF,'all parameter sets and histories, dimensions one to six',
 'The two classes are tested separately with different numbers.',
 [P,P1],[('parallel implementations',P),('parallel implementations',P1)],['compute_control results of both'])
prop('C21','Acceleration commands map to thrust and attitude rates geometrically',
 'A desired acceleration and heading produce the thrust equal to mass times (acceleration minus gravity) projected on the current body vertical axis and body rates equal to minus the attitude gain times the rotation error between the current attitude and the attitude that aligns the vertical axis with the thrust and the heading with the yaw. The thrust is never negative: when the projection is negative both thrust and rates are zero; degenerate directions still give finite results.',
 IN+CF,'all attitudes (inverted included), accelerations, headings, masses, gains and gravities',
 'Tests use identity attitude and level accelerations.',
 [C,CD+'acro_controller.hpp'],[('acceleration_to_thrust, yaw_angle_to_angular_velocity',CD+'acro_controller.hpp'),('projection and negative-thrust guard',C+' convert_linear_acceleration_to_acro')],['convert_linear_acceleration_to_acro','get_desired_thrust','get_desired_angular_velocity'])
prop('C22','The position, velocity and trajectory loops cascade correctly',
 'Position control feeds the position-loop output as velocity reference to the velocity loop, whose output is the desired acceleration; velocity control enters at the velocity loop; trajectory control uses position and velocity errors plus the reference acceleration as feed-forward. Each update runs each involved loop exactly once with the given step, leaves the other loops untouched, and the reported desired values are those actually used.',
 H+IN+CF,'all references, states, gains, steps and interleavings of the control entry points',
 'Tests check each loop alone on a single call with zero integral and derivative terms.',
 [C,CD+'position_controller.hpp',CD+'velocity_controller.hpp',CD+'trajectory_controller.hpp'],[('compute_*_control',C)],['get_desired_*','loop getters'])
prop('C23','Rate control allocates motors that realise thrust and torque',
 'The rate loop turns the body-rate error through its PID into a desired angular acceleration, and the torque is inertia times that plus the gyroscopic term of the desired rates. The commanded motor speeds are the signed square roots of the mixer inverse applied to thrust along the body vertical and that torque, so that feeding them to the model reproduces the requested thrust and torque.',
 H+IN+CF,'all rates, thrusts (including negative motor contributions), inertias, mixers, rotor counts and histories',
 'Tests check one hover thrust with zero torque.',
 [CD+'indi_controller.hpp',U],[('acro_to_motor_angular_velocity',CD+'indi_controller.hpp')],['result','get_desired_torque','get_desired_thrust'])
prop('C24','The inertial sensor reports rotated truth plus bias plus noise',
 'Each sensor update reports the true body rates and specific force rotated into the sensor frame plus the current bias plus zero-mean normal noise of the configured variance, and each bias performs a random walk scaled by the square root of its auto-correlation times the step. A newly built sensor starts from a bias drawn with the measurement variance. Samples are fixed by the seed, gyroscope and accelerometer use their own parameters, a non-positive step changes nothing, and reset zeroes bias and measurement.',
 H+IN+CF,'all mounting orientations, variances, seeds, steps and setter/reset histories; in the simulator all vehicle states and masses',
 'Tests use identity mounting and check only that noise appears.',
 [I,S],[('update, process_bias, process_measurement, reset',I),('specific force in body frame',S+' update_imu')],['get_measurement','get_bias'])
prop('C25','Inertial odometry is the filtered strap-down integral of its inputs',
 'Each odometry update low-pass filters the two measurements, reports the filtered rate as angular velocity and the filtered specific force rotated to the world frame as acceleration, and integrates orientation, velocity and position over the step. Reset restores zero motion at the initial orientation, which can be changed at any time.',
 H+IN+CF,'all filter constants, initial orientations, measurement sequences and steps',
 'Tests use single-axis inputs, identity orientation and no filtering history.',
 [O],[('filter_measurement, integrate_measurement, reset',O)],['get_measurement and single getters'])
prop('C26','Noise-free inertial odometry follows the true motion',
 'With a noise-free, bias-free inertial sensor, an unfiltered odometry started at the vehicle orientation and equal steps, the odometry orientation, velocity and displacement follow the true ones within integration error on every flight, for every mass and attitude, with an identity sensor mounting. The sensor then reports exactly the true body rates and the true acceleration in the body frame.',
 H+IN+CF,'all flights without floor contact, masses, initial attitudes and rotations',
 'Tests compare odometry altitude with truth only on level flights of a 1 kg vehicle.',
 [S,I,O],[('update_imu, update_inertial_odometry',S)],['get_odometry','get_state','get_imu_measurement'])
prop('C27','Live parameter changes keep accumulated state and read back exactly',
 'Changing gains, limits or filter constants of a running PID or of any loop of the vehicle controller takes effect at the next call and alters only the named parameters, leaving integral, filter and previous-error memory intact. Every parameter set through any interface reads back exactly, and replacing a simulator component\'s parameters rebuilds only that component.',
 H+IN+CF,'parameter changes at every point of a history, through every setter',
 'Tests set parameters on fresh objects only.',
 [P,P1,C,S,CD+'indi_controller.hpp',CD+'acro_controller.hpp'],[('setters and update_*_params',P),('update_*_controller_params',C),('set_*_params',S)],['get_params and getters','later outputs'])
prop('C28','Instances are deterministic, independent and copyable',
 'Two objects built with the same parameters and seeds and given the same calls produce identical results bit for bit, and calls on one object never affect another. A copy continues exactly as the original would, and reading through any getter, in either of its forms, returns the same value and changes nothing.',
 H+IN+CF,'all interleavings of calls on several instances, copies taken at any time',
 'Tests use one instance per test.',
 [S,C,D,M,I,O,P,P1],[('value semantics of all classes',S)],['all getters of twin objects'])
prop('C29','The laws hold for single precision and for any rotor count',
 'Single-precision vehicles, sensors and controllers, and vehicles with four, six or eight rotors, obey the same laws as the double-precision quadrotor within the rounding of their precision, with every rotor taking part. All public operations are usable in these configurations.',
 H+IN+CF,'float and double, 4, 6 and 8 rotors, all operations',
 'Tests instantiate almost only double and four rotors.',
 [S,C,D,M,I,O,P,P1],[('templates on precision and rotor count',S)],['all getters'])
prop('C30','Logged rows list every state value in the documented order',
 'Streaming a vehicle state writes position, roll-pitch-yaw, linear velocity, angular velocity, linear acceleration, angular acceleration, force, torque, motor speeds and motor accelerations, and streaming the odometry writes position, roll-pitch-yaw, linear velocity, angular velocity and linear acceleration, comma separated, in this order and with nothing missing. The angles are the roll, pitch and yaw of the orientation for every attitude.',
 IN+CF,'all states, attitudes (gimbal-lock included) and rotor counts',
 'Tests only check that streaming does not throw.',
 [ST,O],[('operator<<',ST),('operator<<',O),('quaternion_to_Euler',ST)],['streamed text'])
prop('C31','Closed-loop flight reaches and holds its references',
 'A vehicle like the one of the example configuration, armed and cycled through controller, dynamics, sensor and odometry updates with equal steps, flies to a position reference, follows a reachable trajectory, attains a velocity or body-rate reference and comes to rest there, with the commanded heading or yaw rate, in every control mode, from any position and heading and in any sequence of modes, re-arming included. With process noise it stays near the reference, and disarmed above an enabled floor it ends at rest on the floor.',
 H+IN+CF,'vehicles and gains around the example configuration, positions, headings, references, steps of a few milliseconds, mode sequences, motor-off gaps, with and without process noise',
 'Tests run single updates; the example flights are not judged.',
 [S,C,D,CD+'position_controller.hpp'],[('update_controller, update_dynamics, update_imu, update_inertial_odometry',S)],['get_state'])
prop('C32','Anything left unset takes its neutral default',
 'A parameter, state component or call argument that the caller leaves unset behaves exactly as if its neutral value had been given: no gains, no anti-windup, no derivative filtering and no output limits for a PID; no drag, aerodynamic moment or process noise and earth gravity (0, 0, -9.81) for the vehicle and its attitude controller; a rotor at the centre pointing up; level rest at the origin with motors off; a noise-free sensor along the body axes; an unfiltered odometry with identity orientation; seed zero. A step without further arguments has no external force and process noise on, limits set without a flag act per axis, and a floor or mode set without further arguments is at height zero, respectively in yaw-angle mode.',
 H+IN+CF,'every subset of fields left unset at construction or in a later update, every shortened call, in every class',
 'Tests set the fields they look at and never compare an omitted field with an explicit one.',
 [P,P1,M,D,ST,I,O,C,S],[('default member initialisers of the parameter and state records',P),('default arguments',D+' process_euler_explicit')],['all getters','later outputs'])
prop('C33','The stand-alone helper functions hold for every argument',
 'The vector and quaternion helpers and the static model functions depend on their arguments alone and follow their law for every argument. The signed square and the signed square root act on each element, keep its sign (zero stays zero) and undo each other; clamping brings each element into the given range and leaves elements inside it untouched. The derivative of a quaternion, of unit length or not, is half its product with the body rate, and integrating it is one Euler step brought back to unit length. Drag opposes every velocity component with the coefficient times its square, the aerodynamic moment is minus the rate magnitude times the coefficient matrix times the rate, and thrust, force and torque of the rotors are the given mixers times the signed squared speeds (plus the inertia mixer times the accelerations for the torque), for any number of rotors.',
 IN+CF,'all vectors, quaternions of any length, matrices, steps and rotor counts, from tiny to huge magnitudes, with exact zeros and negative entries',
 'Tests evaluate each helper at one or two hand-picked vectors.',
 [U,M],[('squared_keep_sign, sqrt_keep_sign, clamp_vector, get_quaternion_derivative, get_quaternion_integrate',U),('get_drag_force, get_aerodynamic_moment, get_force_thrust_by_motors, get_force_vector_thrust_by_motors, get_torque_by_motors (static forms)',M)],['return values'])
prop('C34','The labelled printout shows every state value under its own name',
 'Printing a vehicle state gives, as separated "name: value" items, each component of position, orientation (roll, pitch, yaw), linear and angular velocity, linear and angular acceleration, force and torque and the speed and acceleration of every numbered motor, and printing the odometry gives those of position, orientation, linear and angular velocity and linear acceleration; every name appears exactly once, in this order, followed by the current value of that very quantity, for every state and attitude.',
 IN+CF,'all states, attitudes (gimbal-lock included), rotor counts and precisions',
 'Tests only check that printing does not throw.',
 [ST,O],[('print_state, print_kinematics, print_dynamics, print_actuators',ST),('print_state',O)],['printed text'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in L: f.write(json.dumps(p)+'\n')
print(len(L))

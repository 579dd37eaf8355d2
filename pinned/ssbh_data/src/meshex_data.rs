//! Types for working with [MeshEx] data in .numshexb files.
//!
//! # File Differences
//! Unmodified files are not guaranteed to be binary identical after saving.
//! Some bounding information is recalculated on export and is unlikely to match the original file
//! due to algorithmic differences and floating point errors.
use crate::mesh_data::MeshObjectData;
use geometry_tools::bounding::{
    calculate_bounding_sphere_from_points, calculate_bounding_sphere_from_spheres,
};
use itertools::Itertools;
#[cfg(feature = "serde")]
use serde::{Deserialize, Serialize};
pub use ssbh_lib::formats::mesh::BoundingSphere;
use ssbh_lib::formats::meshex::AllData;
use ssbh_lib::{formats::meshex::MeshEx, Ptr64, Vector3};

/// The data associated with a [MeshEx] file.
#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
#[cfg_attr(feature = "arbitrary", derive(arbitrary::Arbitrary))]
#[derive(Debug, PartialEq, Clone)]
pub struct MeshExData {
    pub mesh_object_groups: Vec<MeshObjectGroupData>,
}

/// The bounding data for a group of [MeshObjectData] with the same name.
///
/// For example, if three objects have the same name but unique subindices,
/// [entry_flags](#structfield.entry_flags) will have 3 elements.
#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
#[cfg_attr(feature = "arbitrary", derive(arbitrary::Arbitrary))]
#[derive(Debug, PartialEq, Clone)]
pub struct MeshObjectGroupData {
    pub bounding_sphere: BoundingSphere,
    pub mesh_object_full_name: String,
    pub mesh_object_name: String,
    /// Rendering flags for each of the [MeshObjectData] in this group.
    pub entry_flags: Vec<EntryFlags>,
}

/// Rendering related toggles for a [MeshObjectData].
#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
#[cfg_attr(feature = "arbitrary", derive(arbitrary::Arbitrary))]
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct EntryFlags {
    pub draw_model: bool,
    pub cast_shadow: bool,
    // TODO: Preserve remaining flags?
}

impl MeshExData {
    /// Groups `objects` by name and calculates bounding information.
    /// Flags are set to a default value.
    pub fn from_mesh_objects(objects: &[MeshObjectData]) -> Self {
        // TODO: Should flags always default to true?
        Self {
            mesh_object_groups: objects
                .iter()
                .group_by(|o| &o.name)
                .into_iter()
                .map(|(name, group)| {
                    // TODO: Find a cleaner way to collect points.
                    // Make geometry_tools accept more types?
                    let group: Vec<_> = group.into_iter().collect();
                    let points: Vec<_> = group
                        .iter()
                        .filter_map(|m| m.positions.first().map(|p| p.data.to_vec4_with_w(1.0)))
                        .flatten()
                        .map(|v| geometry_tools::glam::Vec3A::from_slice(&v))
                        .collect_vec();
                    let sphere = calculate_bounding_sphere_from_points(&points);

                    MeshObjectGroupData {
                        bounding_sphere: BoundingSphere {
                            center: Vector3::new(sphere.x, sphere.y, sphere.z),
                            radius: sphere.w,
                        },
                        mesh_object_full_name: name.clone(),
                        mesh_object_name: strip_mesh_name_tags(name),
                        entry_flags: group
                            .iter()
                            .map(|_| EntryFlags {
                                draw_model: true,
                                cast_shadow: true,
                            })
                            .collect(),
                    }
                })
                .collect(),
        }
    }
}

// TODO: Add methods to create MeshExData from points.

// TODO: Is there a cleaner way of writing this?
// TODO: Should this be public?
fn strip_mesh_name_tags(full_name: &str) -> String {
    // Strip portions of a mesh object's name that aren't necessary for identification.
    // This includes Autodesk Maya's convention of appending "Shape".
    // Names can contain multiple tags like "face_default_O_V_VISShape" -> "face_default".
    let vis_index = full_name.find("_VIS");
    let o_index = full_name.find("_O_");
    match (vis_index, o_index) {
        (None, None) => {
            // Handle the special case where the name only contains shape.
            if full_name.ends_with("Shape") {
                full_name
                    .rfind("Shape")
                    .and_then(|end_index| full_name.get(..end_index))
                    .unwrap_or(full_name)
                    .to_string()
            } else {
                full_name.to_string()
            }
        }
        _ => {
            // Unwrap first since we don't want None < Some.
            let end_index = std::cmp::min(
                vis_index.unwrap_or(full_name.len()),
                o_index.unwrap_or(full_name.len()),
            );
            full_name.get(..end_index).unwrap_or(full_name).to_string()
        }
    }
}

impl From<MeshEx> for MeshExData {
    fn from(m: MeshEx) -> Self {
        Self::from(&m)
    }
}

impl From<&MeshEx> for MeshExData {
    // TODO: Should null pointers for non strings be considered an error?
    fn from(m: &MeshEx) -> Self {
        Self {
            mesh_object_groups: m
                .mesh_object_groups
                .as_ref()
                .unwrap_or(&Vec::new())
                .iter()
                .enumerate()
                .map(|(i, g)| MeshObjectGroupData {
                    bounding_sphere: g.bounding_sphere,
                    // Use empty strings for null pointers.
                    mesh_object_full_name: g
                        .mesh_object_full_name
                        .as_ref()
                        .map(|s| s.to_string_lossy())
                        .unwrap_or_default(),
                    mesh_object_name: g
                        .mesh_object_name
                        .as_ref()
                        .map(|s| s.to_string_lossy())
                        .unwrap_or_default(),
                    entry_flags: m
                        .entries
                        .as_ref()
                        .unwrap_or(&Vec::new())
                        .iter()
                        .positions(|e| e.mesh_object_group_index as usize == i)
                        .filter_map(|entry_index| {
                            // TODO: Return an error for invalid indices?
                            let entry_flags = m.entry_flags.as_ref()?.0.get(entry_index)?;
                            Some(EntryFlags {
                                draw_model: entry_flags.draw_model(),
                                cast_shadow: entry_flags.cast_shadow(),
                            })
                        })
                        .collect(),
                })
                .collect(),
        }
    }
}

impl From<MeshExData> for MeshEx {
    fn from(m: MeshExData) -> Self {
        Self::from(&m)
    }
}

impl From<&MeshExData> for MeshEx {
    fn from(m: &MeshExData) -> Self {
        let all_sphere = calculate_bounding_sphere_from_spheres(
            &m.mesh_object_groups
                .iter()
                .map(|g| {
                    glam::Vec4::new(
                        g.bounding_sphere.center.x,
                        g.bounding_sphere.center.y,
                        g.bounding_sphere.center.z,
                        g.bounding_sphere.radius,
                    )
                })
                .collect_vec(),
        );
        Self {
            all_data: Ptr64::new(AllData {
                bounding_sphere: BoundingSphere {
                    center: Vector3::new(all_sphere.x, all_sphere.y, all_sphere.z),
                    radius: all_sphere.w,
                },
                name: Ptr64::new("All".into()),
            }),
            mesh_object_groups: Ptr64::new(
                m.mesh_object_groups
                    .iter()
                    .map(|g| ssbh_lib::formats::meshex::MeshObjectGroup {
                        bounding_sphere: g.bounding_sphere,
                        mesh_object_full_name: Ptr64::new(g.mesh_object_full_name.as_str().into()),
                        mesh_object_name: Ptr64::new(g.mesh_object_name.as_str().into()),
                    })
                    .collect(),
            ),
            entries: Ptr64::new(
                m.mesh_object_groups
                    .iter()
                    .enumerate()
                    .flat_map(|(i, g)| {
                        g.entry_flags
                            .iter()
                            .map(move |_| ssbh_lib::formats::meshex::MeshEntry {
                                mesh_object_group_index: i as u32,
                                unk1: Vector3::new(0.0, 1.0, 0.0),
                            })
                    })
                    .collect(),
            ),
            entry_flags: Ptr64::new(ssbh_lib::formats::meshex::EntryFlags(
                m.mesh_object_groups
                    .iter()
                    .flat_map(|g| {
                        g.entry_flags.iter().map(|e| {
                            ssbh_lib::formats::meshex::EntryFlag::new()
                                .with_draw_model(e.draw_model)
                                .with_cast_shadow(e.cast_shadow)
                        })
                    })
                    .collect(),
            )),
            unk1: 0, // TODO: Preserve this value?
        }
    }
}
